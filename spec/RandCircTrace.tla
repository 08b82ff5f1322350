----------------------------- MODULE RandCircTrace -----------------------------
(* Judges circuits that were really sampled.                                      *)
EXTENDS RandCirc, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Tr == Traces[tid]
Lib == [g \in 1 .. Len(Tr.gates) |-> Tr.gates[g].t]
Is(b, w) == IF b THEN "" ELSE w
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstOf(Tail(s))

\* e: [n, lays, lines, al (usable), who, ideal, zero, ident, mirror, depth, mindepth, full]
\* full = <<a, b>>: the layers a..b act on every qubit
Ok(e) == \A i \in 1 .. Len(e.lays) : LayerOk(e.lays[i], e.n, e.al)
Circuit(e) ==
  IF Set(e.lines) # 1 .. e.n \/ Len(e.lines) # e.n THEN "lines"
  ELSE IF ~Ok(e) THEN "gate that is not available on these qubits"
  ELSE IF e.depth >= 0 /\ Len(e.lays) # e.depth THEN "depth"
  ELSE IF Len(e.lays) < e.mindepth THEN "depth"
  ELSE IF \E i \in e.full[1] .. e.full[2] : ~Complete(e.lays[i], e.n) THEN "qubit without a gate in a layer"
  ELSE IF e.mirror /\ ~Mirror(e.lays, e.n, Lib) THEN "second half does not mirror the first"
  ELSE LET C == Circ(e.lays, e.n, Lib)  o == Outs2(C) IN
       IF Len(e.who) # e.n \/ Set(e.who) # 1 .. e.n THEN "qubits of the outcome"
       ELSE IF e.definite /\ ~Definite(C) THEN "outcome is not deterministic"
       ELSE IF e.ideal # [i \in 1 .. Len(e.who) |-> o[e.who[i]]] THEN "ideal outcome"
       ELSE IF e.zero /\ Set(e.ideal) # {0} THEN "outcome is not all zeros"
       ELSE IF e.ident /\ ~UpToPauli(C, Identity(e.n)) THEN "operation is not the identity up to Paulis"
       ELSE ""
\* e.core: layers given by the sampler (in the order of the calls); the circuit holds them in this or the opposite order
Core(e) == IF SameLayers(e.lays, e.core) \/ SameLayers(e.lays, Reversed(e.core)) THEN "" ELSE "layers are not those of the sampler"
Layer(e) ==
  IF ~LayerOk(e.lay, e.n, e.al) THEN "gate that is not available on these qubits"
  ELSE IF ~Complete(e.lay, e.n) THEN "qubit without a gate"
  ELSE IF e.twos >= 0 /\ Cardinality(Twos(e.lay)) # e.twos THEN "number of two-qubit gates"
  ELSE IF e.sets = <<>> THEN ""
  ELSE IF e.all THEN Is(\E i \in 1 .. Len(e.sets) : Twos(e.lay) = Set(e.sets[i]), "two-qubit gates are not one of the sets")
  ELSE Is(\E i \in 1 .. Len(e.sets) : Twos(e.lay) \subseteq Set(e.sets[i]), "two-qubit gates are not within one of the sets")
\* the circuit lays is the part of whole on the qubits keep (numbered as in whole)
Part(e) == IF \E i \in 1 .. Len(e.whole) : \E j \in 1 .. Len(e.whole[i]) : LET s == Set(e.whole[i][j].q) IN ~(s \subseteq Set(e.keep) \/ s \cap Set(e.keep) = {})
           THEN "a gate joins subsets of qubits"
           ELSE Is(SameStart(e.lays, [i \in 1 .. Len(e.whole) |-> KeepL(e.whole[i], Set(e.keep))]), "part of the circuit")
Joined(e) == Is(SameLayers(e.lays, Flatten(e.parts)), "parts do not make up the circuit")
\* circuits a and b (on the same qubits) bear the same number: they do the same things
Settings(e) == Is(\A i \in 1 .. Len(e.cs) : \A j \in 1 .. Len(e.cs) : e.cs[i].s = e.cs[j].s => SameStart(e.cs[i].lays, e.cs[j].lays), "one setting, two circuits")
Power(e) == Is(/\ Len(e.lays) = e.depth
               /\ \A i \in 1 .. Len(e.lays) : SameLayer(e.lays[i], e.germ[((i - 1) % Len(e.germ)) + 1]), "power of the germ")
Summary(e) ==
  FirstOf([i \in 1 .. Len(e.rows) |-> LET r == e.rows[i] IN
    IF r.total # CountAt(r.cs, LAMBDA o : TRUE) THEN "total counts"
    ELSE IF r.success # CountAt(r.cs, LAMBDA o : o = r.ideal) THEN "success counts"
    ELSE IF r.ham # HamCounts(r.cs, r.ideal) THEN "Hamming distances"
    ELSE IF r.total > 0 /\ (r.sp # r.success \/ r.adj # Adjusted(r.cs, r.ideal)) THEN "success probability" ELSE ""])
Judge(e) ==
  CASE e.op = "gates" -> Is(\A g \in 1 .. Len(Tr.gates) : ValidT(Tr.gates[g].t) /\ Realises(Tr.gates[g].u, Tr.gates[g].t), "table of gates (harness)")
    [] e.op = "circ" -> Circuit(e)
    [] e.op = "core" -> Core(e)
    [] e.op = "layer" -> Layer(e)
    [] e.op = "part" -> Part(e)
    [] e.op = "joined" -> Joined(e)
    [] e.op = "settings" -> Settings(e)
    [] e.op = "power" -> Power(e)
    [] e.op = "same" -> Is(e.a = e.b, "same seed, other circuits")
    [] e.op = "lens" -> Is(e.a = e.b, "numbers of circuits")
    [] e.op = "between" -> Is(e.lo <= e.x /\ e.x <= e.hi, "length")
    [] e.op = "summary" -> Summary(e)
Verdict(e) == IF e.raised THEN "failed" ELSE Judge(e)
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Tr.ev)
        /\ LET e == Tr.ev[l]  v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN TRUE
                ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o " (" \o e.name \o "): " \o v, want |-> ""]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
