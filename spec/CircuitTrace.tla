---------------------------- MODULE CircuitTrace ----------------------------
(* Checks recorded histories of circuits against Circuit.tla.  A history    *)
(* holds a pool of circuits, all of which are observed after every event.   *)
EXTENDS Circuit, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, pool, bad
Dead == [lines |-> <<>>, layers |-> <<>>, st |-> FALSE, live |-> FALSE]
Core(c) == [lines |-> c.lines, layers |-> c.layers, st |-> c.st]
FrozenOk == {"idlelines", "setlines", "reorder", "delidle", "new", "copy", "done", "read", "get", "serial", "parallel", "repeat", "plus", "renamecopy", "alias", "replayer"}
(* the labels given to an edit: explicit, or those of a circuit *)
Given(p, e) == IF e.d = 0 THEN e.lbls ELSE IF e.lk = "int" THEN <<<<BoxOf(e.name, p[e.d], 1)>>>> ELSE p[e.d].layers
Names(e) == Rg(e.idle)
Expected(p, e) ==
  LET c == Core(p[e.s]) IN
  IF c.st /\ e.op \notin FrozenOk THEN Bad
  ELSE CASE e.op = "new" -> Ok([lines |-> e.lines, layers |-> e.lbls, st |-> e.st])
    [] e.op = "copy" -> Ok([c EXCEPT !.st = e.st])
    [] e.op = "done" -> Ok([c EXCEPT !.st = TRUE])
    [] e.op = "set" -> IF e.d # 0 /\ e.lk # "int" /\ ~(Rg(p[e.d].lines) \subseteq Rg(c.lines)) THEN Bad
                       ELSE SetLabels(c, Given(p, e), e.lk, e.lay, e.nk, e.lines)
    [] e.op = "insidle" -> InsIdle(c, e.none, e.before, e.k, e.nk, e.lines)
    [] e.op = "inslayers" -> InsLayers(c, Given(p, e), e.none, e.before, e.nk, e.lines)
    [] e.op = "inslayer" -> InsLayers(IF c.lines # <<>> THEN c ELSE [c EXCEPT !.lines = e.lines], e.lbls, FALSE, e.before, "all", <<>>)
    [] e.op = "inslines" -> InsAsLines(c, Given(p, e), e.none, e.before, e.lnone, e.at, e.lines)
    [] e.op = "idlelines" -> IF InsLinesOk(c, e.lnone, e.at, e.lines) THEN Ok([c EXCEPT !.lines = PutLines(@, e.lnone, e.at, e.lines)]) ELSE Bad
    [] e.op = "clear" -> Clear(c, e.lk, e.lay, e.nk, e.lines, e.str)
    [] e.op = "clearall" -> Ok([c EXCEPT !.layers = <<>>])
    [] e.op = "dellayers" -> DelLayers(c, e.lk, e.lay)
    [] e.op = "dellines" -> DelLines(c, LineSeq(c, e.nk, e.lines), e.str)
    [] e.op = "setlines" -> SetLines(c, e.lines)
    [] e.op = "reorder" -> IF Rg(e.lines) = Rg(c.lines) /\ Len(e.lines) = Len(c.lines) THEN Ok([c EXCEPT !.lines = e.lines]) ELSE Bad
    [] e.op = "delidle" -> Ok(DelIdleLines(c, Names(e)))
    [] e.op = "inscircuit" -> InsCircuit(c, Core(p[e.d]), e.none, e.before)
    [] e.op = "replace" -> ReplaceLayer(c, Core(p[e.d]), e.before)
    [] e.op = "tensor" -> Tensor(c, Core(p[e.d]), e.lines)
    [] e.op = "rename" -> Ok(Rename(c, e.m))
    [] e.op = "renamecopy" -> Ok([Rename(c, e.m) EXCEPT !.st = e.st])
    [] e.op = "get" -> GetLabels(c, e.lk, e.lay, e.nk, e.lines, e.strict, c.st)
    [] e.op = "reverse" -> Ok(Reversed(c))
    [] e.op = "serial" -> Ok(Serial(c))
    [] e.op = "parallel" -> Ok(Parallel(c, e.brk, e.adj))
    [] e.op = "repeat" -> Ok(Repeat(c, e.k, e.name, e.expand))
    [] e.op = "plus" -> Ok(Plus(c, Core(p[e.d])))
    [] e.op = "shift" -> Ok(Shifted(c))
    [] e.op = "noidle" -> Ok(NoIdle(c))
    [] e.op = "compress" -> Ok(NoIdle(Shifted(c)))
    [] e.op = "expand" -> Ok(Expanded(c))
    [] e.op = "factor" -> Ok(Factored(c))
    [] e.op = "alias" -> Ok(Alias(c, e.al))
    [] e.op = "replayer" -> Ok([Alias(c, e.al) EXCEPT !.st = TRUE])
    [] e.op \in {"combine", "compressrel"} -> Ok(c)
    [] e.op = "library" -> IF ~e.allow /\ \E g \in Rg(Flat(c.layers)) : ~\E m \in 1..Len(e.comp) : e.comp[m].key = g THEN Bad ELSE Ok(c)
(* operations whose result is only determined up to the order of gates that share no line *)
Loose == {"combine", "compressrel", "library"}
LooseClause(p, e, d) ==
  LET c == Core(p[e.s]) IN
  CASE e.op = "combine" -> IF ~SameProgram(c, d, e.names, e.tab) THEN "another program" ELSE IF ~NoClash(d) THEN "gates share a line"
                           ELSE IF Len(d.layers) # Len(c.layers) THEN "number of layers" ELSE ""
    [] e.op = "compressrel" -> IF ~SameProgram(c, d, e.names, e.tab) THEN "another program" ELSE IF ~NoClash(d) THEN "gates share a line"
                           ELSE IF \E i \in 1..Len(d.layers) : d.layers[i] = <<>> THEN "idle layer" ELSE IF ~Tight(d) THEN "gates could move forward" ELSE ""
    [] e.op = "library" -> IF ~SameProgram(Substituted(c, e.comp), d, <<"">>, <<>>) THEN "another program" ELSE IF ~NoClash(d) THEN "gates share a line" ELSE ""
Target(e) == IF e.op \in {"copy", "renamecopy", "get", "serial", "parallel", "repeat", "plus", "alias", "replayer"} THEN e.s2 ELSE e.s
ObsOf(e, s) == LET k == {i \in 1..Len(e.obs) : e.obs[i].slot = s} IN e.obs[CHOOSE i \in k : TRUE]
Has(e, s) == \E i \in 1..Len(e.obs) : e.obs[i].slot = s
Diff(want, o) == IF want.lines # o.lines THEN "lines" ELSE IF want.st # o.st THEN "editability"
                 ELSE IF Len(want.layers) # Len(o.layers) THEN "number of layers" ELSE IF ~SameLayers(want.layers, o.layers) THEN "gates" ELSE ""
Want(p, e) == LET x == Expected(p, e) IN IF x.ok THEN x.c ELSE p[Target(e)]
RECURSIVE Others(_, _, _)
Others(p, e, s) == IF s > Len(p) THEN ""
   ELSE IF (s = Target(e) /\ ~e.raised) \/ ~p[s].live THEN Others(p, e, s + 1)
   ELSE IF ~Has(e, s) THEN "circuit lost"
   ELSE LET v == Diff(p[s], ObsOf(e, s)) IN IF v # "" THEN (IF s = Target(e) THEN "rejected, but " ELSE "another circuit: ") \o v ELSE Others(p, e, s + 1)
Flag(p, e) == LET c == Core(p[e.s]) d == ObsOf(e, e.s) IN
  IF e.op \in {"shift", "noidle", "combine"} /\ e.flag # ~SameLayers(c.layers, d.layers) THEN "reports a wrong change" ELSE ""
Read(c, e) ==
  IF e.nl # Len(c.layers) THEN "number of layers" ELSE IF e.width # Len(c.lines) THEN "width"
  ELSE IF e.depth # Depth(c) THEN "depth"
  ELSE IF e.plain /\ e.size # Size(c) THEN "size"
  ELSE IF e.counted /\ (e.n1 # Count(c, 1) \/ e.n2 # Count(c, 2) \/ e.n3 # Count(c, 3)) THEN "gate counts"
  ELSE IF e.counted /\ e.multi # Multi(c) THEN "multi-line gate count"
  ELSE IF e.idling # IdleLines(c, {}) THEN "idling lines"
  ELSE IF e.idlingx # IdleLines(c, Names(e)) THEN "idling lines up to idle layers"
  ELSE IF \E i \in 1..Len(c.lines) : e.isidle[i] # Idling(c, c.lines[i], {}) THEN "is_line_idling"
  ELSE IF Len(e.comps) # (IF c.lines = <<>> THEN 0 ELSE Len(c.layers)) \/ Len(e.withidle) # Len(e.comps) THEN "layers"
  ELSE IF \E i \in 1..Len(e.comps) : ~SameLayer(e.comps[i], c.layers[i]) THEN "components of a layer"
  ELSE IF \E i \in 1..Len(e.withidle) : ~SameLayer(e.withidle[i], WithIdles(c, c.layers[i], "I")) THEN "layer with idles"
  ELSE ""
Verdict(p, e) ==
  IF e.op = "read" THEN (IF e.raised THEN "failed" ELSE LET v == Read(Core(p[e.s]), e) IN IF v # "" THEN v ELSE Others(p, [e EXCEPT !.raised = TRUE], 1))
  ELSE LET x == Expected(p, e) IN
  IF e.raised /\ x.ok THEN "was rejected" ELSE IF ~e.raised /\ ~x.ok THEN "should have been rejected"
  ELSE LET o == Others(p, e, 1) IN IF o # "" THEN o
  ELSE IF e.raised THEN ""
  ELSE LET d == Core(ObsOf(e, Target(e))) v == IF e.op \in Loose THEN (IF d.st # x.c.st THEN "editability" ELSE LooseClause(p, e, d)) ELSE Diff(x.c, d) IN
       IF v # "" THEN v ELSE Flag(p, e)
(* the order of gates within a layer is taken from the circuit itself *)
After(p, e) == [s \in 1..Len(p) |-> IF Has(e, s) THEN [lines |-> ObsOf(e, s).lines, layers |-> ObsOf(e, s).layers, st |-> ObsOf(e, s).st, live |-> TRUE] ELSE Dead]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ pool = [s \in 1..Traces[tid].slots |-> Dead]
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(pool, e) IN
             /\ bad' = v /\ pool' = After(pool, e)
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> IF e.op = "read" THEN Core(pool[e.s]) ELSE Core(Want(pool, e))]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, pool, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
