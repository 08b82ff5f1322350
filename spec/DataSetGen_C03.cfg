SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 4
  Menu = {"small", "store"}
  Emit = TRUE
INVARIANT AllWellFormed

CHECK_DEADLOCK FALSE
