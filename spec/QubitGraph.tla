---------------------------- MODULE QubitGraph ----------------------------
(* Qubit graphs.  g = [n, dir, names, d, c]: n nodes called 1..n (in node   *)
(* order), dir: directed, d: number of directions (0: none), c[i][j] = 0:   *)
(* no edge, otherwise k >= 1, the direction of the edge (1 if there are     *)
(* none).  Undirected graphs keep c symmetric.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty(n, dir, d) == [n |-> n, dir |-> dir, d |-> d, c |-> [i \in 1..n |-> [j \in 1..n |-> 0]]]
Nodes(g) == 1..g.n
Adj(g, i, j) == g.c[i][j] # 0
SetC(g, i, j, k) == LET g1 == [g EXCEPT !.c[i][j] = k] IN IF g.dir THEN g1 ELSE [g1 EXCEPT !.c[j][i] = k]
AddOk(g, i, j, k) == i # j /\ (g.d = 0) = (k = 0) /\ k <= g.d
AddEdge(g, i, j, k) == SetC(g, i, j, IF g.d = 0 THEN 1 ELSE k)
RemoveOk(g, i, j) == Adj(g, i, j)
RemoveEdge(g, i, j) == SetC(g, i, j, 0)

(* distances: number of edges of a shortest path, -1 when there is none *)
RECURSIVE Ball(_, _, _)
Ball(g, S, k) == IF k = 0 THEN S ELSE LET T == S \cup {j \in Nodes(g) : \E i \in S : Adj(g, i, j)} IN IF T = S THEN S ELSE Ball(g, T, k - 1)
Reach(g, S) == Ball(g, S, g.n)
Dist(g, i, j) == IF j \notin Reach(g, {i}) THEN -1
                 ELSE CHOOSE k \in 0..g.n : j \in Ball(g, {i}, k) /\ (k = 0 \/ j \notin Ball(g, {i}, k - 1))
IsPath(g, s) == \A i \in 1..(Len(s) - 1) : Adj(g, s[i], s[i+1])
ShortestPath(g, i, j, s) == Len(s) = Dist(g, i, j) + 1 /\ s[1] = i /\ s[Len(s)] = j /\ IsPath(g, s)
(* every node of S can be reached from every other one, by any path of the graph *)
Glob(g, S) == \A i \in S : S \subseteq Reach(g, {i})
Subsets(S, k) == {T \in SUBSET S : Cardinality(T) = k}
Combos(g, S, k) == Cardinality({T \in Subsets(S, k) : Cardinality(T) < 2 \/ Glob(g, T)})
(* sub-graph on the sequence of nodes s, renumbered by position *)
Sub(g, s) == [g EXCEPT !.n = Len(s), !.c = [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> g.c[s[i]][s[j]]]]]
(* connected inside, that is with paths that do not leave T *)
Inside(g, T) == LET s == SetToSeq(T) IN LET h == Sub(g, s) IN Cardinality(T) < 2 \/ Glob(h, 1..Len(s))
ConnectedSets(g, k) == {T \in Subsets(Nodes(g), k) : Inside(g, T)}
(* edges in node order; both orientations of undirected ones only when dbl *)
SeqFilter(s, P(_)) == SelectSeq(s, P)
Pairs(n) == [k \in 1..(n * n) |-> <<((k - 1) \div n) + 1, ((k - 1) % n) + 1>>]
Edges(g, dbl) == SeqFilter(Pairs(g.n), LAMBDA e : Adj(g, e[1], e[2]) /\ (g.dir \/ dbl \/ e[1] < e[2]))
Radius(g, S, k) == Ball(g, S, k)
(* the neighbours of i in direction k; moving along a direction goes to the first of them *)
Toward(g, i, k) == {j \in Nodes(g) : g.c[i][j] = k}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Move(g, i, k) == IF i = 0 \/ Toward(g, i, k) = {} THEN 0 ELSE MinS(Toward(g, i, k))
(* the known deviation move_in_direction: directions are off by one, so the first direction means "no edge" *)
Off(g, i, k) == {j \in 1..g.n : g.c[i][j] = k - 1}
OffMove(g, i, k) == IF i = 0 \/ Off(g, i, k) = {} THEN 0 ELSE MinS(Off(g, i, k))
RECURSIVE OffMoveAll(_, _, _)
OffMoveAll(g, i, ks) == IF ks = <<>> THEN i ELSE OffMoveAll(g, OffMove(g, i, ks[1]), Tail(ks))
RECURSIVE MoveAll(_, _, _)
MoveAll(g, i, ks) == IF ks = <<>> THEN i ELSE MoveAll(g, Move(g, i, ks[1]), Tail(ks))

(* standard geometries; directions in alphabetical order of their names, all: also the opposite ones *)
Line(n) == {<<i, i + 1, "right">> : i \in 1..(n-1)}
Ring(n) == Line(n) \cup (IF n > 2 THEN {<<n, 1, "right">>} ELSE {})
RECURSIVE Sqrt(_, _)
Sqrt(n, s) == IF s * s >= n THEN s ELSE Sqrt(n, s + 1)
Cell(s, r, c) == (r - 1) * s + c
Grid(n) == LET s == Sqrt(n, 1) IN
   {<<Cell(s, r, c), Cell(s, r, c + 1), "right">> : r \in 1..s, c \in 1..(s-1)} \cup
   {<<Cell(s, r, c), Cell(s, r + 1, c), "down">> : r \in 1..(s-1), c \in 1..s}
Torus(n) == LET s == Sqrt(n, 1) IN Grid(n) \cup (IF s > 2 THEN
   {<<Cell(s, r, s), Cell(s, r, 1), "right">> : r \in 1..s} \cup {<<Cell(s, s, c), Cell(s, 1, c), "down">> : c \in 1..s} ELSE {})
Opp(d) == IF d = "right" THEN "left" ELSE "up"
Geometry(n, geo, all) == LET E == IF n < 2 THEN {} ELSE CASE geo = "line" -> Line(n) [] geo = "ring" -> Ring(n) [] geo = "grid" -> Grid(n) [] geo = "torus" -> Torus(n)
   IN E \cup (IF all THEN {<<e[2], e[1], Opp(e[3])>> : e \in E} ELSE {})
Alphabetical == <<"down", "left", "right", "up">>
CommonOk(n, geo) == n < 2 \/ geo \in {"line", "ring"} \/ (n >= 4 /\ Sqrt(n, 1) * Sqrt(n, 1) = n)
RECURSIVE AddAll(_, _)
AddAll(g, E) == IF E = {} THEN g ELSE LET e == CHOOSE e \in E : TRUE IN AddAll(SetC(g, e[1], e[2], e[3]), E \ {e})
Common(n, geo, dir, all) ==
  LET E == Geometry(n, geo, all)
      used == SeqFilter(Alphabetical, LAMBDA x : \E e \in E : e[3] = x)
      ix(x) == CHOOSE k \in 1..Len(used) : used[k] = x
  IN AddAll(Empty(n, dir, IF dir THEN Len(used) ELSE 0), {<<e[1], e[2], IF dir THEN ix(e[3]) ELSE 1>> : e \in E})
=============================================================================
