SPECIFICATION Spec
CONSTANTS
  Slots = {1}
  Depth = 4
  Menu = {"add", "edit"}
  Emit = FALSE
INVARIANT AllWellFormed
INVARIANT Conservation
PROPERTY IsolatedProp
PROPERTY FrozenProp
PROPERTY RejectedProp
CHECK_DEADLOCK FALSE
