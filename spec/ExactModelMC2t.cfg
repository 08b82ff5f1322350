SPECIFICATION Spec
CONSTANTS
  Which = 2
  MaxLen = 2
  Emit = FALSE
INVARIANTS
  Complete
  Pictures
  Sums
  Derivatives
  SecondDerivatives
  Symmetric
  GaugeFree
  Commute
CHECK_DEADLOCK FALSE
