CONSTANTS
 Req <- R1
SPECIFICATION Spec
INVARIANTS Correct SubsCorrect
CHECK_DEADLOCK FALSE
