SPECIFICATION Spec
CONSTANTS
 N = 2
 L = 2
 Emit = FALSE
INVARIANTS TypeOk OutcomeOk EndOk
VIEW View
CHECK_DEADLOCK FALSE
