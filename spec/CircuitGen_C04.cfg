SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxStart = 2
  Depth0 = 1
  Menu = {"set", "ins"}
  Emit = TRUE
CONSTRAINT HasLines
CHECK_DEADLOCK FALSE
