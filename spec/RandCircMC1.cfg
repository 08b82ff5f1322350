SPECIFICATION Spec
CONSTANTS
 N = 1
 L = 4
 Emit = FALSE
INVARIANTS TypeOk OutcomeOk EndOk
VIEW View
CHECK_DEADLOCK FALSE
