SPECIFICATION Spec
CONSTANTS
 M = 3
 PS <- PSq
 Entries <- Ev
 Kinds = {""}
INVARIANTS LevelKept RowsOk Confluent Ordered HolmsIsHolms
PROPERTY Monotone
CHECK_DEADLOCK FALSE
