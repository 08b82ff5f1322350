SPECIFICATION Spec
CONSTANTS
  Which = 1
  MaxLen = 3
  Emit = FALSE
INVARIANTS
  Complete
  Pictures
  Sums
  Derivatives
  SecondDerivatives
  Symmetric
  GaugeFree
  Commute
CHECK_DEADLOCK FALSE
