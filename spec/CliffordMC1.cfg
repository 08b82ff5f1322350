CONSTANTS N = 1
 Emit = FALSE
 WithU = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Valid Inverse Steps Unitary Paulis States
POSTCONDITION Full
CHECK_DEADLOCK FALSE
