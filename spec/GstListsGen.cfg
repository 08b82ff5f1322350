SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Emit = TRUE
 Rules = 2
INVARIANTS EmitOk
CHECK_DEADLOCK FALSE
