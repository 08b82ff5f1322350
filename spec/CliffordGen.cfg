CONSTANTS N = 2
 Emit = TRUE
 WithU = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Show
POSTCONDITION Full
CHECK_DEADLOCK FALSE
