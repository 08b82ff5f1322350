SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxStart = 1
  Depth0 = 2
  Menu = {"set", "ins"}
  Emit = FALSE
INVARIANT Clashless
INVARIANT Laws
PROPERTY Local
PROPERTY InsertGrows
PROPERTY IdleKeeps
PROPERTY LinesKeep
CONSTRAINT HasLines
CHECK_DEADLOCK FALSE
