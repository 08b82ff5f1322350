SPECIFICATION Spec
CONSTANTS
  Slots = {1}
  Depth = 3
  Menu = {"add", "edit"}
  Emit = TRUE
INVARIANT AllWellFormed

CHECK_DEADLOCK FALSE
