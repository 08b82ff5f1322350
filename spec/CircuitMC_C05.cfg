SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxStart = 2
  Depth0 = 2
  Menu = {"trans"}
  Emit = FALSE
INVARIANT Clashless
INVARIANT Laws
PROPERTY Local
PROPERTY InsertGrows
PROPERTY IdleKeeps
PROPERTY LinesKeep
CONSTRAINT HasLines
CHECK_DEADLOCK FALSE
