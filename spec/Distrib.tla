------------------------------- MODULE Distrib ------------------------------
(* Distribution of work over processors: ownership arithmetic, collective   *)
(* communication and gathering.  Ranks, items and cells are numbered from 1.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in 1..Len(s)}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Lesser(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- dividing n things into k runs, the first ones larger by one ------- *)
RunStart(n, k, j) == (j - 1) * (n \div k) + Lesser(j - 1, n % k) + 1
RunEnd(n, k, j) == RunStart(n, k, j + 1) - 1
Run(n, k, j) == RunStart(n, k, j)..RunEnd(n, k, j)
RunOf(n, k, i) == CHOOSE j \in 1..k : i \in Run(n, k, j)

(* ---- who holds and owns which of n items among p ranks ----------------- *)
(* more ranks than items and sharing allowed: the ranks are divided among   *)
(* the items; otherwise the items among the ranks                           *)
Shared(p, n, share) == n > 0 /\ p >= n /\ share
Group(p, n, i) == Run(p, n, i)
Loc(p, n, share, r) ==
  IF n = 0 THEN <<>>
  ELSE IF Shared(p, n, share) THEN <<RunOf(p, n, r)>>
  ELSE IF p >= n THEN (IF r <= n THEN <<r>> ELSE <<>>)
  ELSE [k \in 1..Cardinality(Run(n, p, r)) |-> RunStart(n, p, r) + k - 1]
Owner(p, n, share, i) == IF Shared(p, n, share) THEN RunStart(p, n, i) ELSE IF p >= n THEN i ELSE RunOf(n, p, i)
(* the communicator of the ranks holding the same item (none if unshared)   *)
LocComm(p, n, share, r) == IF Shared(p, n, share) /\ p > n THEN SetToSortSeq(Group(p, n, RunOf(p, n, r)), <) ELSE <<>>

(* what any correct distribution satisfies.  hold: rank -> set of items,    *)
(* own: item -> rank, grp: rank -> set of ranks it works with               *)
Covers(p, n, hold, own, grp) ==
  /\ \A i \in 1..n : own[i] \in 1..p /\ i \in hold[own[i]]
  /\ \A r \in 1..p : r \in grp[r] /\ \A s \in grp[r] : grp[s] = grp[r] /\ hold[s] = hold[r]
  /\ \A r, s \in 1..p : s \notin grp[r] => hold[r] \cap hold[s] = {}
  /\ \A i \in 1..n : own[i] = SetMin(grp[own[i]])
Balanced(p, n, hold, grp) ==
  \A r, s \in 1..p : Cardinality(hold[r]) - Cardinality(hold[s]) \in -1..1 /\ Cardinality(grp[r]) - Cardinality(grp[s]) \in -1..1

(* ---- collective calls --------------------------------------------------- *)
NoCall == [k |-> "", c |-> 0, root |-> 0, n |-> 0]
Call(e) == [k |-> e.k, c |-> e.c, root |-> e.root, n |-> e.n]
Compatible(a, b) == a.k = b.k /\ a.root = b.root /\ a.n = b.n
Complete(comms, pend, c) == \A i \in 1..Len(comms[c]) : pend[comms[c][i]].c = c
(* groups of a split: per color, the ranks ordered by (key, old rank)        *)
SplitGroups(members, color, key) ==
  LET cols == SetToSortSeq({color[i] : i \in 1..Len(color)}, <)
      grp(col) == LET idx == SetToSortSeq({i \in 1..Len(members) : color[i] = col},
                                          LAMBDA a, b : key[a] < key[b] \/ (key[a] = key[b] /\ a < b))
                  IN [k \in 1..Len(idx) |-> members[idx[k]]]
  IN [k \in 1..Len(cols) |-> grp(cols[k])]

(* ---- gathering ----------------------------------------------------------- *)
(* start: rank -> cells; cellsOf[b]: cells of block b; ownerOf[b]; blocks are*)
(* broadcast in order                                                        *)
GatherStep(st, cells, o) == [r \in DOMAIN st |-> [x \in DOMAIN st[r] |-> IF x \in cells THEN st[o][x] ELSE st[r][x]]]
Gather(start, cellsOf, ownerOf) ==
  LET G[b \in 0..Len(cellsOf)] == IF b = 0 THEN start ELSE GatherStep(G[b - 1], cellsOf[b], ownerOf[b]) IN G[Len(cellsOf)]
Dot(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> SumSeq([k \in 1..Len(b) |-> a[i][k] * b[k][j]])]]
=============================================================================
