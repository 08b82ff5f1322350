------------------------------ MODULE EvalPlanMC ------------------------------
(* A nondeterministic planner: circuits are planned in any order, starting from *)
(* any cached prefix or from nothing, with or without being cached; then slots   *)
(* may be given up one after the other, and the plan may be divided into any     *)
(* two sub-plans closed under what they read.  Every plan so made is whole.      *)
EXTENDS EvalPlan
CONSTANTS Req
VARIABLES nodes, order, csize, cut
vars == <<nodes, order, csize, cut>>
R1 == <<<<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"b">>>>
R2 == <<<<"a">>, <<"a", "a">>, <<"a", "a", "b">>, <<"a", "a", "b", "a">>, <<"b">>>>
N == Len(Req)
None == <<-1, <<>>, 0>>
P == [kind |-> "map", nfinal |-> Len(Req), nels |-> Len(Req), nper |-> [f \in 1..Len(Req) |-> 1], nodes |-> nodes, order |-> order, cachesize |-> csize, els |-> [f \in 1..N |-> <<"0">>], elabels |-> <<"0">>,
      eix |-> [f \in 1..N |-> <<1>>], fix |-> [f \in 1..N |-> <<f>>], fels |-> [f \in 1..N |-> f], ops |-> <<"a", "b">>, rho |-> <<>>]
SlotOf(c) == CHOOSE i \in 1..N : nodes[i] # None /\ nodes[i][3] = c
IsPre(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Init == nodes = [i \in 1..N |-> None] /\ order = <<>> /\ csize = 0 /\ cut = {}
Plan(i) == /\ nodes[i] = None /\ cut = {}
           /\ \E c \in 0..csize, keep \in BOOLEAN :
                /\ c > 0 => IsPre(Req[SlotOf(c)], Req[i])
                /\ nodes' = [nodes EXCEPT ![i] = <<c, IF c = 0 THEN Req[i] ELSE SubSeq(Req[i], Len(Req[SlotOf(c)]) + 1, Len(Req[i])), IF keep THEN csize + 1 ELSE 0>>]
                /\ csize' = IF keep THEN csize + 1 ELSE csize
           /\ order' = Append(order, i) /\ UNCHANGED cut
Planned == \A i \in 1..N : nodes[i] # None
(* giving up slot c: readers start where its writer started *)
GiveUp(c) == /\ Planned /\ cut = {}
             /\ LET w == nodes[SlotOf(c)] sh(k) == IF k > c THEN k - 1 ELSE k IN
                nodes' = [i \in 1..N |-> LET n == nodes[i] IN
                   IF n[3] = c THEN <<sh(n[1]), n[2], 0>>
                   ELSE IF n[1] = c THEN <<sh(w[1]), w[2] \o n[2], sh(n[3])>>
                   ELSE <<sh(n[1]), n[2], sh(n[3])>>]
             /\ csize' = csize - 1 /\ UNCHANGED <<order, cut>>
(* needed: what the nodes of S read, transitively *)
Reads(i) == IF nodes[i][1] = 0 THEN {} ELSE {SlotOf(nodes[i][1])}
Closure(S) == LET C[k \in 0..N] == IF k = 0 THEN S ELSE C[k - 1] \cup UNION {Reads(i) : i \in C[k - 1]} IN C[N]
Divide == /\ Planned /\ cut = {} /\ \E S \in (SUBSET (1..N)) \ {{}} : cut' = S /\ UNCHANGED <<nodes, order, csize>>
Next == (\E i \in 1..N : Plan(i)) \/ (\E c \in 1..csize : GiveUp(c)) \/ Divide
Spec == Init /\ [][Next]_vars
(* the sub-plan that is responsible for the circuits S: renumbered nodes and slots *)
SubPlan(S) ==
  LET cl == Closure(S)
      num == SetToSortSeq(S, <) \o SetToSortSeq(cl \ S, <)
      pos(i) == CHOOSE k \in 1..Len(num) : num[k] = i
      slots == SetToSortSeq({nodes[i][3] : i \in cl} \ {0}, <)
      sl(c) == IF c = 0 THEN 0 ELSE CHOOSE k \in 1..Len(slots) : slots[k] = c
  IN [kind |-> "map", nfinal |-> Cardinality(S), nels |-> Cardinality(S), nper |-> [f \in 1..Cardinality(S) |-> 1], nodes |-> [k \in 1..Len(num) |-> <<sl(nodes[num[k]][1]), nodes[num[k]][2], sl(nodes[num[k]][3])>>],
      order |-> LET o == SelectSeq(order, LAMBDA i : i \in cl) IN [k \in 1..Len(o) |-> pos(o[k])],
      cachesize |-> Len(slots), els |-> [f \in 1..Cardinality(S) |-> <<"0">>], elabels |-> <<"0">>, eix |-> [f \in 1..Cardinality(S) |-> <<1>>],
      fix |-> [f \in 1..Cardinality(S) |-> <<f>>], fels |-> SubSeq(num, 1, Cardinality(S)), ops |-> <<"a", "b">>, rho |-> <<>>]
Correct == Planned => Whole(P) = "" /\ Run(P).v = Req
SubsCorrect == (Planned /\ cut # {}) => \A S \in {cut, (1..N) \ cut} \ {{}} : Whole(SubPlan(S)) = "" /\
                 LET v == Run(SubPlan(S)).v q == SetToSortSeq(S, <) IN \A k \in 1..Len(q) : v[k] = Req[q[k]]
=============================================================================
