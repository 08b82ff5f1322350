SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 2
  Emit = FALSE
INVARIANTS Good Noticed Order
CHECK_DEADLOCK FALSE
