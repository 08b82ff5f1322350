CONSTANTS N = 3
 Emit = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Show
CHECK_DEADLOCK FALSE
