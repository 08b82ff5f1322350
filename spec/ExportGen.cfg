SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
