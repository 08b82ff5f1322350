------------------------------- MODULE EvalPlan ------------------------------
(* Evaluation plans (bulk evaluation trees).  A plan computes a list of        *)
(* "raw" circuits (a preparation followed by operations) from shared parts;    *)
(* every raw circuit has a list of effects; an element is one (raw circuit,    *)
(* effect).  Nodes, circuits, elements and cache slots are numbered from 1.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in 1..Len(s)}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Unset == <<"(not computed)">>
(* ---- running a plan ------------------------------------------------------ *)
(* product plans: node = <<left, right>>; leaves hold one operation or nothing *)
LeafStep(st, p) == IF st.bad # "" THEN st ELSE
  IF st.v[p[1]] # Unset THEN [st EXCEPT !.bad = "a node is computed twice"]
  ELSE [st EXCEPT !.v[p[1]] = IF p[2] = "" THEN <<>> ELSE <<p[2]>>]
ProdStep(nodes, st, i) == IF st.bad # "" THEN st ELSE LET n == nodes[i] IN
  IF n[1] = 0 \/ n[2] = 0 THEN [st EXCEPT !.bad = "a node without operands"]
  ELSE IF st.v[n[1]] = Unset \/ st.v[n[2]] = Unset THEN [st EXCEPT !.bad = "an operand has not been computed yet"]
  ELSE IF st.v[i] # Unset THEN [st EXCEPT !.bad = "a node is computed twice"]
  ELSE [st EXCEPT !.v[i] = st.v[n[1]] \o st.v[n[2]]]
(* cached plans: node = <<slot of the starting state or 0, remaining operations, slot written or 0>> *)
CacheStep(nodes, st, i) == IF st.bad # "" THEN st ELSE LET n == nodes[i] IN
  IF st.v[i] # Unset THEN [st EXCEPT !.bad = "a node is computed twice"]
  ELSE IF n[1] # 0 /\ (n[1] > Len(st.slot) \/ st.slot[n[1]] = Unset) THEN [st EXCEPT !.bad = "an empty cache slot is read"]
  ELSE LET s == (IF n[1] = 0 THEN <<>> ELSE st.slot[n[1]]) \o n[2] IN
       IF n[3] > Len(st.slot) THEN [st EXCEPT !.bad = "a cache slot does not exist"]
       ELSE [st EXCEPT !.v[i] = s, !.slot = IF n[3] = 0 THEN @ ELSE [@ EXCEPT ![n[3]] = s]]
Run(p) ==
  LET st0 == [v |-> [i \in 1..Len(p.nodes) |-> Unset], slot |-> [i \in 1..(IF p.kind = "map" THEN p.cachesize ELSE 0) |-> Unset], bad |-> ""]
      st1 == IF p.kind = "matrix" THEN FoldLeft(LeafStep, st0, p.init) ELSE st0
  IN FoldLeft(LAMBDA st, i : IF p.kind = "matrix" THEN ProdStep(p.nodes, st, i) ELSE CacheStep(p.nodes, st, i), st1, p.order)
(* ---- what it computes ----------------------------------------------------- *)
(* element of final f with label e; product plans hold the preparation in the label <<prep, effect>> *)
ElementsOf(p, run) == FlattenSeq([f \in 1..p.nfinal |-> [k \in 1..Len(p.els[f]) |->
   IF p.kind = "matrix" THEN [c |-> <<p.els[f][k][1]>> \o run.v[f], e |-> p.els[f][k][2]]
   ELSE [c |-> run.v[f], e |-> p.els[f][k]]]])
(* which final an element belongs to *)
FinalOf(p) == FlattenSeq([f \in 1..p.nfinal |-> [k \in 1..Len(p.els[f]) |-> f]])
(* index tables used by the simulators *)
Tables(p) ==
  IF p.kind = "matrix" THEN
    LET nel == SumSeq([f \in 1..p.nfinal |-> Len(p.els[f])])
        flat == FlattenSeq([f \in 1..p.nfinal |-> [k \in 1..Len(p.els[f]) |-> <<p.els[f][k], f>>]])
        rows == FlattenSeq([j \in 1..Len(p.sti) |-> [k \in 1..Len(p.sti[j].f) |-> <<p.sti[j].f[k], <<p.sti[j].prep, p.sti[j].eff>>, p.sti[j].g[k]>>]])
    IN IF Len(rows) # nel THEN "spam tuple tables: number of entries"
       ELSE IF {rows[k] : k \in 1..Len(rows)} # {<<p.fels[j], flat[j][1], flat[j][2]>> : j \in 1..nel} THEN "spam tuple tables" ELSE ""
  ELSE IF p.kind = "term" THEN ""
  ELSE
    IF Len(p.eix) # p.nfinal THEN "effect tables: number of circuits"
    ELSE IF \E f \in 1..p.nfinal : [k \in 1..Len(p.eix[f]) |-> p.elabels[p.eix[f][k]]] # p.els[f] THEN "effect tables"
    ELSE IF FlattenSeq(p.fix) # [k \in 1..SumSeq([f \in 1..p.nfinal |-> Len(p.els[f])]) |-> k] THEN "element tables"
    ELSE ""
Ops(p) == IF p.kind = "matrix" THEN {p.init[k][2] : k \in 1..Len(p.init)} \ {""} ELSE UNION {Rg(p.nodes[i][2]) : i \in 1..Len(p.nodes)}
(* a plan on its own: every final computed, tables right *)
Whole(p) ==
  LET run == Run(p) IN
  IF run.bad # "" THEN run.bad
  ELSE IF \E f \in 1..p.nfinal : run.v[f] = Unset THEN "a requested circuit is not computed"
  ELSE IF Len(p.els) # p.nfinal THEN "number of requested circuits"
  ELSE IF p.nels # SumSeq([f \in 1..p.nfinal |-> Len(p.els[f])]) THEN "number of elements"
  ELSE IF p.nper # [f \in 1..p.nfinal |-> Len(p.els[f])] THEN "number of elements per circuit"
  ELSE IF p.kind # "matrix" /\ ~(Ops(p) \subseteq (Rg(p.ops) \cup Rg(p.rho))) THEN "operation labels"
  ELSE Tables(p)
(* the division into sub-plans *)
Division(p, subs) ==
  LET run == Run(p) els == ElementsOf(p, run) fo == FinalOf(p)
      Sub(s) == LET r == Run(s) e == ElementsOf(s, r) IN
        IF Whole(s) # "" THEN Whole(s)
        ELSE IF s.stop - s.start # s.nfinal THEN "size of the slice"
        ELSE IF \E f \in 1..s.nfinal : r.v[f] # run.v[s.start + f] THEN "a sub-plan computes another circuit than its parent"
        ELSE IF Len(s.fels) # Len(e) THEN "number of elements of a sub-plan"
        ELSE IF \E k \in 1..Len(e) : els[s.fels[k]] # e[k] THEN "an element is mapped to another position"
        ELSE ""
      bad == {i \in 1..Len(subs) : Sub(subs[i]) # ""} IN
  IF bad # {} THEN Sub(subs[CHOOSE i \in bad : \A j \in bad : i <= j])
  ELSE IF Len(subs) = 0 THEN ""
  ELSE IF subs[1].start # 0 \/ subs[Len(subs)].stop # p.nfinal \/ \E i \in 1..(Len(subs) - 1) : subs[i].stop # subs[i + 1].start THEN "the slices do not divide the circuits"
  ELSE LET all == FlattenSeq([i \in 1..Len(subs) |-> subs[i].fels]) IN
       IF Len(all) # Len(els) \/ Rg(all) # 1..Len(els) THEN "the elements are not covered exactly once" ELSE ""
(* ---- what was asked for ---------------------------------------------------- *)
(* a circuit: preparation, list of alternatives <<name, op>> per layer, effects <<name, effect>> *)
RECURSIVE Branches(_)
Branches(items) == IF items = <<>> THEN {[o |-> <<>>, c |-> <<>>]}
  ELSE {[o |-> a.o \o b.o, c |-> <<a.c>> \o b.c] : a \in Rg(items[1]), b \in Branches(Tail(items))}
Wanted(q) == {[o |-> Append(b.o, x.o), c |-> <<q.prep>> \o b.c, e |-> x.e] : b \in Branches(q.items), x \in Rg(q.effs)}
WantedObs(q) == IF q.all THEN Wanted(q) ELSE {w \in Wanted(q) : w.o \in Rg(q.obs)}
(* look: per circuit its element numbers; outs: per circuit the outcome labels *)
Lookup(p, qs, look, outs) ==
  LET els == ElementsOf(p, Run(p)) IN
  IF Len(look) # Len(qs) \/ Len(outs) # Len(qs) THEN "number of circuits"
  ELSE IF \E i \in 1..Len(qs) : Len(look[i]) # Len(outs[i]) \/ Len(outs[i]) # Cardinality(WantedObs(qs[i])) THEN "number of outcomes"
  ELSE IF \E i \in 1..Len(qs) : \E k \in 1..Len(look[i]) : look[i][k] \notin 1..Len(els) THEN "element number"
  ELSE IF \E i \in 1..Len(qs) : {[o |-> outs[i][k], c |-> els[look[i][k]].c, e |-> els[look[i][k]].e] : k \in 1..Len(look[i])} # WantedObs(qs[i]) THEN "elements of a circuit"
  ELSE IF \E a, b \in 1..Len(els) : a # b /\ els[a] = els[b] THEN "an element is computed twice"
  ELSE IF UNION {Rg(look[i]) : i \in 1..Len(qs)} # 1..Len(els) THEN "an element nobody asked for"
  ELSE ""
=============================================================================
