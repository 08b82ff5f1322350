SPECIFICATION Spec
CONSTANTS
 N = 3
 D = 2
INVARIANTS OneStep Triangle Symmetric EdgesRight SubRight Heredity
CHECK_DEADLOCK FALSE
