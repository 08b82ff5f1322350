SPECIFICATION Spec
CONSTANTS
  Which = 1
  MaxLen = 4
  Emit = TRUE
CHECK_DEADLOCK FALSE
