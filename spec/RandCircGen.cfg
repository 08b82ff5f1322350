SPECIFICATION Spec
CONSTANTS
 N = 2
 L = 2
 Emit = TRUE
INVARIANTS EmitOk

CHECK_DEADLOCK FALSE
