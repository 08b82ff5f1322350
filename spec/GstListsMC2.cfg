SPECIFICATION Spec
CONSTANTS
 MaxOps = 2
 Emit = FALSE
 Rules = 2
INVARIANTS NoneTwice Exactly Placed FirstsOk TruncOk RenOk
VIEW Shape
CHECK_DEADLOCK FALSE
