SPECIFICATION Spec
CONSTANTS
  MaxTok = 4
  MaxLay = 2
  Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
INVARIANT Stable
