CONSTANTS
 Req <- R2
SPECIFICATION Spec
INVARIANTS Correct SubsCorrect
CHECK_DEADLOCK FALSE
