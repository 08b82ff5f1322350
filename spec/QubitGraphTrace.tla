------------------------- MODULE QubitGraphTrace --------------------------
(* Checks recorded histories of qubit graphs against QubitGraph.tla.  A     *)
(* history holds a pool of graphs, all of which are observed after every    *)
(* modification.                                                            *)
EXTENDS QubitGraph, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, pool, bad
Dead == Empty(0, TRUE, 0)
SetOf(s) == {s[i] : i \in 1..Len(s)}
FromEdges(n, dir, d, es) == AddAll(Empty(n, dir, d), {<<e[1], e[2], IF d = 0 THEN 1 ELSE e[3]>> : e \in SetOf(es)})
(* initial connectivity: an undirected graph only uses the upper triangle *)
FromMatrix(n, dir, d, m) == [Empty(n, dir, d) EXCEPT !.c = [i \in 1..n |-> [j \in 1..n |-> IF dir \/ i < j THEN m[i][j] ELSE IF i = j THEN 0 ELSE m[j][i]]]]
Ok(e) ==
  CASE e.op = "add" -> AddOk(pool[e.s], e.i, e.j, e.k)
    [] e.op = "remove" -> RemoveOk(pool[e.s], e.i, e.j)
    [] e.op = "common" -> CommonOk(e.n, e.geo)
    [] OTHER -> TRUE
(* the part of graph init allowed by graph con; map[k] = <<node of con, node of init>> *)
Allowed(con, init, map) == LET n == Len(map) IN
   [Empty(n, con.dir \/ init.dir, 0) EXCEPT !.c = [a \in 1..n |-> [b \in 1..n |->
       IF Adj(con, map[a][1], map[b][1]) /\ Adj(init, map[a][2], map[b][2]) THEN 1 ELSE 0]]]
Target(e) == IF e.op \in {"copy", "sub", "filter"} THEN e.s2 ELSE e.s
New(e) ==
  CASE e.op = "new" -> FromEdges(e.n, e.dir, e.d, e.edges)
    [] e.op = "newm" -> FromMatrix(e.n, e.dir, e.d, e.m)
    [] e.op = "common" -> Common(e.n, e.geo, e.dir, e.all)
    [] e.op = "add" -> AddEdge(pool[e.s], e.i, e.j, e.k)
    [] e.op = "set" -> SetC(pool[e.s], e.i, e.j, e.k)
    [] e.op = "remove" -> RemoveEdge(pool[e.s], e.i, e.j)
    [] e.op = "copy" -> pool[e.s]
    [] e.op = "sub" -> Sub(pool[e.s], e.nodes)
    [] e.op = "filter" -> Allowed(pool[e.s], pool[e.init], e.map)
Mods == {"new", "newm", "common", "add", "set", "remove", "copy", "sub", "filter"}
After(e) == IF e.op \in Mods /\ Ok(e) THEN [pool EXCEPT ![Target(e)] = New(e)] ELSE pool
(* observation of a graph: edges, doubled edges, per ordered pair: direct connection, item, has_edge *)
Obs(g, o) ==
  IF o.n # g.n THEN "number of nodes" ELSE IF o.dir # g.dir THEN "directed" ELSE IF o.d # g.d THEN "directions"
  ELSE IF o.edges # Edges(g, FALSE) THEN "edges"
  ELSE IF o.dedges # Edges(g, TRUE) THEN "doubled edges"
  ELSE IF \E i, j \in 1..g.n : o.adj[i][j] # Adj(g, i, j) THEN "direct connections"
  ELSE ""
KnownMove(g, e) == IF e.q = "move" THEN e.got = OffMove(g, e.i, e.k) /\ e.got # Move(g, e.i, e.k)
                   ELSE IF e.q = "moves" THEN e.got = OffMoveAll(g, e.i, e.ks) /\ e.got # MoveAll(g, e.i, e.ks) ELSE FALSE
Read(g, e) ==
  CASE e.q = "dist" -> IF e.got # [i \in 1..g.n |-> [j \in 1..g.n |-> Dist(g, i, j)]] THEN "distances" ELSE ""
    [] e.q = "conn" -> IF \E i, j \in 1..g.n : i # j /\ e.got[i][j] # (Dist(g, i, j) >= 0) THEN "connectedness" ELSE ""
    [] e.q = "path" -> IF \E i, j \in 1..g.n : IF Dist(g, i, j) < 0 THEN e.got[i][j] # <<>> ELSE ~ShortestPath(g, i, j, e.got[i][j]) THEN "shortest path" ELSE ""
    [] e.q = "pathedges" -> IF \E i, j \in 1..g.n : IF Dist(g, i, j) <= 0 THEN e.got[i][j] # <<>> ELSE
                              LET s == e.got[i][j] IN Len(s) # Dist(g, i, j) \/ s[1][1] # i \/ s[Len(s)][2] # j \/ (\E k \in 1..Len(s) : ~Adj(g, s[k][1], s[k][2]))
                                  \/ (\E k \in 1..(Len(s)-1) : s[k][2] # s[k+1][1]) THEN "edges of the shortest path" ELSE ""
    [] e.q = "meet" -> IF \E k \in 1..Len(e.got) : e.got[k] # (\E x \in SetOf(e.nodes) : x \in SetOf(e.paths[k])) THEN "intersection with the shortest path" ELSE ""
    [] e.q = "pred" -> IF \E i, j \in 1..g.n : LET k == e.got[i][j] IN
                          IF i = j \/ Dist(g, i, j) < 0 THEN k # 0 ELSE (k = 0 \/ Dist(g, i, k) # Dist(g, i, j) - 1 \/ ~Adj(g, k, j)) THEN "predecessors" ELSE ""
    [] e.q = "glob" -> IF e.got # (Cardinality(SetOf(e.nodes)) < 2 \/ Glob(g, SetOf(e.nodes))) THEN "connectedness of a set" ELSE ""
    [] e.q = "combos" -> IF e.got # Combos(g, SetOf(e.nodes), e.k) THEN "number of connected subsets" ELSE ""
    [] e.q = "radius" -> IF e.got # SetToSortSeq(Radius(g, SetOf(e.nodes), e.k), <) THEN "nodes within a radius" ELSE ""
    [] e.q = "sets" -> IF {SetOf(x) : x \in SetOf(e.got)} # ConnectedSets(g, e.k) \/ Len(e.got) # Cardinality(ConnectedSets(g, e.k)) THEN "connected sets" ELSE ""
    [] e.q = "move" -> IF e.got # Move(g, e.i, e.k) /\ ~KnownMove(g, e) THEN "move in a direction" ELSE ""
    [] e.q = "moves" -> IF e.got # MoveAll(g, e.i, e.ks) /\ ~KnownMove(g, e) THEN "relative node label" ELSE ""
RECURSIVE FirstSlot(_, _, _)
FirstSlot(q, obs, k) == IF k > Len(obs) THEN "" ELSE LET c == Obs(q[obs[k].slot], obs[k]) IN
   IF c # "" THEN "graph " \o ToString(obs[k].slot) \o ": " \o c ELSE FirstSlot(q, obs, k + 1)
Verdict(e) ==
  IF e.op = "read" THEN Read(pool[e.s], e)
  ELSE IF e.raised # ~Ok(e) THEN (IF e.raised THEN "the operation was rejected" ELSE "the operation should have been rejected")
  ELSE FirstSlot(After(e), e.obs, 1)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ pool = [s \in 1..4 |-> Dead]
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(e) IN
             /\ bad' = v /\ pool' = After(e)
             /\ IF v # "" \/ e.op # "read" THEN TRUE ELSE IF KnownMove(pool[e.s], e) THEN PrintT("KNOWN " \o ToJson([tid |-> tid, l |-> l, key |-> "move_in_direction"])) ELSE TRUE
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> After(e)[Target(e)]]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, pool, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
