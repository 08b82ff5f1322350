SPECIFICATION Spec
CONSTANTS
 N = 2
 L = 3
 Emit = FALSE
INVARIANTS TypeOk OutcomeOk EndOk
VIEW View
CHECK_DEADLOCK FALSE
