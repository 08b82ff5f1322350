SPECIFICATION Spec
CONSTANTS
 M = 3
 PS <- PSv
 Entries <- Ev
 Kinds = {"", "Hochberg"}
INVARIANTS LevelKept RowsOk Confluent Ordered HolmsIsHolms
PROPERTY Monotone
CHECK_DEADLOCK FALSE
