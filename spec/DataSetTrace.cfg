SPECIFICATION Spec
VIEW View
INVARIANT AllWellFormed
CHECK_DEADLOCK FALSE
