CONSTANTS N = 2
 Emit = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Show
CHECK_DEADLOCK FALSE
