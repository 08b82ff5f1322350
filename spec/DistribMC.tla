------------------------------ MODULE DistribMC ------------------------------
(* 1. the ownership arithmetic for all numbers of ranks and items;            *)
(* 2. programs of nested collective calls (distribute, split, compute own     *)
(*    part, gather inside the group, gather over groups) under every          *)
(*    interleaving: never stuck, and every rank ends with the full result.    *)
EXTENDS Distrib
CONSTANTS MaxP, MaxN, P0, N0, M0
Hold(p, n, s) == [r \in 1..p |-> Rg(Loc(p, n, s, r))]
Own(p, n, s) == [i \in 1..n |-> Owner(p, n, s, i)]
Grp(p, n, s) == [r \in 1..p |-> IF LocComm(p, n, s, r) = <<>> THEN {r} ELSE Rg(LocComm(p, n, s, r))]
ASSUME \A p \in 1..MaxP : \A n \in 0..MaxN : \A s \in BOOLEAN :
  /\ Covers(p, n, Hold(p, n, s), Own(p, n, s), Grp(p, n, s))
  /\ UNION {Hold(p, n, s)[r] : r \in 1..p} = 1..n
  /\ (n > 0 /\ (s \/ p <= n)) => Balanced(p, n, Hold(p, n, s), Grp(p, n, s))
  /\ n > 0 => UNION {Run(n, p, j) : j \in 1..p} = 1..n
(* Program of every rank: array of N0 rows by M0 columns; rows are distributed *)
(* over ranks (sharing), the columns of a row over the group holding it.       *)
(* steps: 1 split, 2 own cells, 3 gather columns in the group, 4 gather rows   *)
VARIABLES st, comms, pend, cell
Cells == {<<i, j>> : i \in 1..N0, j \in 1..M0}
(* for every rank, its list of collective calls with their effects *)
RowsOf(r) == Loc(P0, N0, TRUE, r)
G(r) == IF LocComm(P0, N0, TRUE, r) = <<>> THEN <<r>> ELSE LocComm(P0, N0, TRUE, r)
InG(r) == CHOOSE k \in 1..Len(G(r)) : G(r)[k] = r
Splitting == P0 > N0
MyCid(r) == IF Splitting THEN 1 + RunOf(P0, N0, r) ELSE 0
ColOwner(r, j) == Owner(Len(G(r)), M0, FALSE, j)
Calls(r) ==
  (IF Splitting THEN <<[k |-> "Split", c |-> 1, root |-> 0, cells |-> {}]>> ELSE <<>>)
  \o (IF Splitting THEN [j \in 1..M0 |-> [k |-> "Bcast", c |-> MyCid(r), root |-> ColOwner(r, j), cells |-> {<<RowsOf(r)[1], j>>}]] ELSE <<>>)
  \o [i \in 1..N0 |-> [k |-> "Bcast", c |-> 1, root |-> Owner(P0, N0, TRUE, i), cells |-> {<<i, j>> : j \in 1..M0}]]
Mine(r) == IF Splitting THEN {<<RowsOf(r)[1], j>> : j \in {j \in 1..M0 : ColOwner(r, j) = InG(r)}}
           ELSE {<<i, j>> : i \in Rg(RowsOf(r)), j \in 1..M0}
Init == /\ st = [r \in 1..P0 |-> 1] /\ comms = <<[r \in 1..P0 |-> r]>> /\ pend = [r \in 1..P0 |-> NoCall]
        /\ cell = [r \in 1..P0 |-> Mine(r)]
Enter(r) == /\ pend[r] = NoCall /\ st[r] <= Len(Calls(r))
            /\ LET x == Calls(r)[st[r]] IN
                 /\ x.c \in 1..Len(comms)
                 /\ pend' = [pend EXCEPT ![r] = [k |-> x.k, c |-> x.c, root |-> x.root, n |-> 0]]
            /\ UNCHANGED <<st, comms, cell>>
Finish(c) == /\ Complete(comms, pend, c)
             /\ LET m == comms[c] x == Calls(m[1])[st[m[1]]] IN
                  /\ comms' = IF x.k = "Split" THEN comms \o SplitGroups(m, [i \in 1..Len(m) |-> RowsOf(m[i])[1]], m) ELSE comms
                  /\ cell' = IF x.k = "Split" THEN cell
                             ELSE [r \in 1..P0 |-> IF r \in Rg(m) THEN (cell[r] \ x.cells) \cup (x.cells \cap cell[m[x.root]]) ELSE cell[r]]
                  /\ st' = [r \in 1..P0 |-> IF r \in Rg(m) THEN st[r] + 1 ELSE st[r]]
                  /\ pend' = [r \in 1..P0 |-> IF r \in Rg(m) THEN NoCall ELSE pend[r]]
Done == \A r \in 1..P0 : st[r] > Len(Calls(r))
Next == (\E r \in 1..P0 : Enter(r)) \/ (\E c \in 1..Len(comms) : Finish(c)) \/ (Done /\ UNCHANGED <<st, comms, pend, cell>>)
Spec == Init /\ [][Next]_<<st, comms, pend, cell>>
Matching == \A c \in 1..Len(comms) : \A r, s \in Rg(comms[c]) : (pend[r].c = c /\ pend[s].c = c) => Compatible(pend[r], pend[s])
Full == Done => \A r \in 1..P0 : cell[r] = Cells
Partition == \A r, s \in 1..P0 : Mine(r) \cap Mine(s) # {} => r = s
=============================================================================
