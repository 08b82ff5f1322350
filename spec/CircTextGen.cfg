SPECIFICATION Spec
CONSTANTS
  MaxTok = 3
  MaxLay = 0
  Emit = TRUE
CHECK_DEADLOCK FALSE
