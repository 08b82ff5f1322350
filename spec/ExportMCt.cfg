SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 3
  Emit = FALSE
INVARIANTS Good Noticed Order
CHECK_DEADLOCK FALSE
