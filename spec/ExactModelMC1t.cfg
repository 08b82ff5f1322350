SPECIFICATION Spec
CONSTANTS
  Which = 1
  MaxLen = 5
  Emit = FALSE
INVARIANTS
  Complete
  Pictures
  Sums
  Derivatives
  SecondDerivatives
  Symmetric
  GaugeFree
  Commute
CHECK_DEADLOCK FALSE
