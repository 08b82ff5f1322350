--------------------------- MODULE QubitGraphMC ---------------------------
(* Every history of edge additions and removals on N nodes. *)
EXTENDS QubitGraph
CONSTANTS N, D
VARIABLE g
Init == \E dir \in BOOLEAN : \E d \in 0..D : (dir \/ d = 0) /\ g = Empty(N, dir, d)
Next == \/ \E i, j \in 1..N, k \in 0..D : AddOk(g, i, j, k) /\ g' = AddEdge(g, i, j, k)
        \/ \E i, j \in 1..N : RemoveOk(g, i, j) /\ g' = RemoveEdge(g, i, j)
Spec == Init /\ [][Next]_g
(* independent characterisation of distances: the least solution of the one-step equations *)
DD == [i \in 1..N |-> [j \in 1..N |-> Dist(g, i, j)]]
OneStep == \A i, j \in 1..N : LET d == DD[i][j] IN
   /\ (d = 0) = (i = j)
   /\ d > 0 => \E k \in 1..N : Adj(g, k, j) /\ DD[i][k] = d - 1
   /\ \A k \in 1..N : (DD[i][k] >= 0 /\ Adj(g, k, j)) => (d >= 0 /\ d <= DD[i][k] + 1)
Triangle == \A i, j, k \in 1..N : (DD[i][j] >= 0 /\ DD[j][k] >= 0) => (DD[i][k] >= 0 /\ DD[i][k] <= DD[i][j] + DD[j][k])
Symmetric == ~g.dir => \A i, j \in 1..N : DD[i][j] = DD[j][i] /\ g.c[i][j] = g.c[j][i]
EdgesRight == /\ {e \in {Edges(g, TRUE)[i] : i \in 1..Len(Edges(g, TRUE))} : TRUE} = {e \in (1..N) \X (1..N) : Adj(g, e[1], e[2])}
              /\ ~g.dir => 2 * Len(Edges(g, FALSE)) = Len(Edges(g, TRUE))
SubRight == \A T \in SUBSET (1..N) : Inside(g, T) => Glob(g, T)
(* every connected set of k+1 nodes contains one of k nodes (undirected) *)
Heredity == ~g.dir => \A T \in SUBSET (1..N) : (Cardinality(T) > 1 /\ Inside(g, T)) => \E x \in T : Inside(g, T \ {x})
=============================================================================
