CONSTANTS N = 3
 Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS UnitVector TableauFixes TableauValid Agree Measured
CHECK_DEADLOCK FALSE
