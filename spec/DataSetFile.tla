--------------------------- MODULE DataSetFile ---------------------------
(* A directory with data files that are written again and again, and read  *)
(* with or without a cache kept beside them: a read returns what was       *)
(* written last.  Numbers are indices of a table kept by the harness.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, disk, bad
Files == {0, 1}
(* order of the rows is kept; so is the order of the records of a row of a time-stamped file *)
SameRow(a, b) == a[1] = b[1] /\ a[2] = b[2]
Verdict(d, e) ==
  IF e.raised THEN "the operation was rejected"
  ELSE IF e.op \in {"write", "save"} THEN ""
  ELSE LET w == d[e.f] IN
       IF Len(w) # Len(e.got) THEN "number of rows"
       ELSE IF \E i \in 1..Len(w) : w[i][1] # e.got[i][1] THEN "circuits"
       ELSE IF \E i \in 1..Len(w) : ~SameRow(w[i], e.got[i]) THEN "counts" ELSE ""
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ disk = [f \in Files |-> <<>>]
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(disk, e) IN
             /\ bad' = v
             /\ disk' = IF e.op \in {"write", "save"} THEN [disk EXCEPT ![e.f] = e.rows] ELSE disk
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> disk[e.f]]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, disk, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
