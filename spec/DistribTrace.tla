---------------------------- MODULE DistribTrace ----------------------------
(* Checks recorded runs of distributed computations against Distrib.tla:     *)
(* every collective call, every communicator split and the final results.    *)
EXTENDS Distrib, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, comms, pend, gone, bad
T == Traces[tid]
(* state after an event *)
NewComms(e) == IF e.op = "split" THEN comms \o [k \in 1..Len(e.new) |-> e.new[k].m] ELSE comms
Clear(q, c) == [r \in DOMAIN q |-> IF q[r].c = c THEN NoCall ELSE q[r]]
NewPend(e) == IF e.op = "call" THEN LET q == [pend EXCEPT ![e.r] = Call(e)] IN IF e.k # "Split" /\ Complete(comms, q, e.c) THEN Clear(q, e.c) ELSE q
              ELSE IF e.op = "split" THEN Clear(pend, e.c) ELSE pend
NewGone(e) == IF e.op = "exit" THEN gone \cup {e.r} ELSE gone
CallV(e) ==
  IF e.r \in gone THEN "a processor that had finished"
  ELSE IF pend[e.r].c # 0 THEN "two calls at once"
  ELSE IF e.c \notin 1..Len(comms) \/ e.r \notin Rg(comms[e.c]) THEN "not a member of the communicator"
  ELSE IF e.root \notin 0..(Len(comms[e.c]) - 1) THEN "root is not in the communicator"
  ELSE IF \E s \in Rg(comms[e.c]) : pend[s].c = e.c /\ ~Compatible(pend[s], Call(e)) THEN "members of a communicator make different collective calls"
  ELSE ""
SplitV(e) ==
  IF ~Complete(comms, pend, e.c) THEN "incomplete" ELSE
  LET g == SplitGroups(comms[e.c], e.color, e.key) IN
  IF Len(e.new) # Len(g) THEN "groups" ELSE IF \E k \in 1..Len(g) : e.new[k].m # g[k] \/ e.new[k].c # Len(comms) + k THEN "groups" ELSE ""
(* ---- results ------------------------------------------------------------ *)
P == T.p
GrpOf(res, r) == IF res[r].comm = <<>> THEN {r} ELSE Rg(res[r].comm)
Ownership(n, res) ==
  IF \E r \in 1..P : Len(res[r].owner) # n THEN "number of owned items"
  ELSE IF \E r \in 1..P : res[r].owner # res[1].owner THEN "processors disagree about the owners"
  ELSE IF ~Covers(P, n, [r \in 1..P |-> Rg(res[r].loc)], res[1].owner, [r \in 1..P |-> GrpOf(res, r)]) THEN "ownership is not a partition"
  ELSE IF \E r \in 1..P : Cardinality(Rg(res[r].loc)) # Len(res[r].loc) THEN "an item is listed twice"
  ELSE ""
Items(j, res) ==
  LET c == IF j.split THEN Ownership(j.n, res) ELSE "" IN
  IF c # "" THEN c
  ELSE IF \E r \in 1..P : res[r].loc # Loc(P, j.n, j.share, r) THEN "items of a processor"
  ELSE IF \E r \in 1..P : res[r].owner # [i \in 1..j.n |-> Owner(P, j.n, j.share, i)] THEN "owners"
  ELSE IF \E r \in 1..P : res[r].comm # (IF j.split THEN LocComm(P, j.n, j.share, r) ELSE <<>>) THEN "communicator of a group"
  ELSE ""
SliceRes(j, res) ==
  LET m == Lesser(P, j.n) IN
  IF \E r \in 1..P : res[r].slices # [k \in 1..m |-> <<RunStart(j.n, m, k) - 1, RunEnd(j.n, m, k)>>] THEN "slices"
  ELSE IF \E r \in 1..P : res[r].owner # [i \in 1..m |-> Owner(P, m, j.share, i)] THEN "owners"
  ELSE IF \E r \in 1..P : res[r].loc # (IF Loc(P, m, j.share, r) = <<>> THEN <<>> ELSE res[r].slices[Loc(P, m, j.share, r)[1]]) THEN "local slice"
  ELSE IF \E r \in 1..P : res[r].comm # LocComm(P, m, j.share, r) THEN "communicator of a group"
  ELSE ""
TreeRes(j, res) ==
  LET g(r) == IF j.ncomms = P THEN {r} ELSE IF res[r].comm = <<>> THEN {r} ELSE Rg(res[r].comm)
      c == Ownership(j.n, res) IN
  IF c # "" THEN c
  ELSE IF Cardinality({g(r) : r \in 1..P}) # j.ncomms THEN "number of groups"
  ELSE IF ~Balanced(P, j.n, [r \in 1..P |-> Rg(res[r].loc)], [r \in 1..P |-> g(r)]) THEN "unbalanced"
  ELSE ""
GatherRes(j, res) ==
  LET st == [r \in 1..P |-> j.start[r]]
      want == Gather(st, [b \in 1..Len(j.cells) |-> Rg(j.cells[b])], j.owner) IN
  IF \E r \in 1..P : res[r] # want[r] THEN "gathered array" ELSE ""
Same(want, res) == IF \E r \in 1..P : res[r] # want THEN "result of a processor" ELSE ""
EndV(e) ==
  IF gone # 1..P THEN "a processor has not finished"
  ELSE LET j == T.job IN
    CASE j.kind = "indices" -> Items(j, e.res)
      [] j.kind = "slices" -> SliceRes(j, e.res)
      [] j.kind = "tree" -> TreeRes(j, e.res)
      [] j.kind = "gather" -> GatherRes(j, e.res)
      [] j.kind = "apply" -> Same([i \in 1..Len(j.items) |-> j.items[i] \o "!"], e.res)
      [] j.kind = "dot" -> Same(Dot(j.a, j.b), e.res)
      [] j.kind = "total" -> Same(SumSeq(j.x), e.res)
      [] j.kind = "serial" -> IF e.mism # <<>> THEN "a processor's result differs from the serial one" ELSE ""
Verdict(e) ==
  CASE e.op = "call" -> CallV(e)
    [] e.op = "split" -> SplitV(e)
    [] e.op = "exit" -> IF pend[e.r].c # 0 \/ e.r \in gone THEN "finished inside a call" ELSE ""
    [] e.op = "raise" -> "a processor failed: " \o e.msg
    [] e.op = "stuck" -> "processors wait for each other for ever"
    [] e.op = "end" -> EndV(e)
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ comms = <<[r \in 1..Traces[tid].p |-> r]>>
        /\ pend = [r \in 1..Traces[tid].p |-> NoCall] /\ gone = {}
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN comms' = NewComms(e) /\ pend' = NewPend(e) /\ gone' = NewGone(e)
                ELSE UNCHANGED <<comms, pend, gone>> /\ PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> [comms |-> comms]]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, comms, pend, gone, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
