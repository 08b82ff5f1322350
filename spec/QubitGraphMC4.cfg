SPECIFICATION Spec
CONSTANTS
 N = 4
 D = 0
INVARIANTS OneStep Triangle Symmetric EdgesRight SubRight Heredity
CHECK_DEADLOCK FALSE
