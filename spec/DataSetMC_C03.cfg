SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 4
  Menu = {"small", "store", "edit"}
  Emit = FALSE
INVARIANT AllWellFormed
INVARIANT Conservation
PROPERTY IsolatedProp
PROPERTY FrozenProp
PROPERTY RejectedProp
CHECK_DEADLOCK FALSE
