SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxStart = 3
  Depth0 = 1
  Menu = {"trans"}
  Emit = TRUE
CONSTRAINT HasLines
CHECK_DEADLOCK FALSE
