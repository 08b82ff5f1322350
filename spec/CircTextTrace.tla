--------------------------- MODULE CircTextTrace ---------------------------
(* Checks what the real parsers, printers and storage routes made of texts   *)
(* and circuits against CircText.tla.                                        *)
EXTENDS CircText, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bad
Result(p, o) == IF p.ok # o.ok THEN (IF p.ok THEN "rejected" ELSE "accepted")
  ELSE IF ~p.ok THEN ""
  ELSE IF p.named # o.named \/ p.lines # o.lines THEN "line labels"
  ELSE IF ~SameList(p.layers, o.layers) THEN "layers" ELSE ""
Tag(t, v) == IF v = "" THEN "" ELSE t \o ": " \o v
First(vs) == LET k == {i \in 1..Len(vs) : vs[i] # ""} IN IF k = {} THEN "" ELSE vs[CHOOSE i \in k : \A j \in k : i <= j]
(* the circuit built from a text: boxes written out on demand *)
CircOf(e, p, o) == IF p.ok # o.ok THEN (IF p.ok THEN "rejected" ELSE "accepted") ELSE IF ~p.ok THEN ""
  ELSE IF p.named /\ o.lines # p.lines THEN "lines of the circuit"
  ELSE IF e.expand THEN (IF ~SameGates(Outs(p.layers), Outs(o.layers)) \/ \E i \in 1..Len(o.layers) : HasBox(o.layers[i]) THEN "layers of the circuit" ELSE "")
  ELSE IF ~SameList(p.layers, o.layers) THEN "layers of the circuit" ELSE ""
RECURSIVE Expl(_)
Expl(x) == IF x.k = "gate" THEN Rg(x.q) ELSE UNION {Expl(x.b[i]) : i \in 1..Len(x.b)}
Explicit(ls) == UNION {Expl(ls[i]) : i \in 1..Len(ls)}
(* lists of lines that circuits cannot have: repeated lines, or lines of gates missing *)
Covers(p) == ~p.ok \/ ~p.named \/ (Cardinality(Rg(p.lines)) = Len(p.lines) /\ Explicit(p.layers) \subseteq Rg(p.lines))
EqCirc(a, b) == a.lines = b.lines /\ EqList(a.layers, b.layers)
Bare(x) == x = <<>> \/ x = <<[int |-> FALSE, s |-> <<"*">>]>>
(* circuits without lines and with the anonymous line have no line labels to compare *)
EqTup(a, b) == ((Bare(a.lines) /\ Bare(b.lines)) \/ a.lines = b.lines) /\ EqList(a.layers, b.layers)
Text0(e) == LET p == Parse(e.text, TRUE, TRUE) IN
  IF ~p.ok THEN "text cannot be read"
  ELSE IF p.named # ~(e.lines = <<[int |-> FALSE, s |-> <<"*">>]>>) THEN "line labels missing or superfluous"
  ELSE IF p.named /\ p.lines # e.lines THEN "line labels"
  ELSE IF ~Denotes(e.layers, p) THEN "layers" ELSE ""
Pair(e) == LET eq == EqTup(e.a, e.b) IN
  IF e.eq # eq THEN (IF eq THEN "equal circuits compare unequal" ELSE "different circuits compare equal")
  ELSE IF e.ne = eq THEN "!= is not the opposite of =="
  ELSE IF eq /\ ~e.hash THEN "equal circuits have different hashes"
  ELSE IF e.lt /\ (e.gt \/ eq) THEN "order" ELSE IF e.gt /\ eq THEN "order" ELSE ""
Route(e) == IF e.raised THEN "failed" ELSE IF ~(IF e.exact THEN SameList(e.a.layers, e.b.layers) ELSE EqList(e.a.layers, e.b.layers)) THEN "layers" ELSE IF e.a.lines # e.b.lines THEN "lines"
  ELSE IF ~e.eq THEN "not equal" ELSE IF ~e.hash THEN "hash" ELSE IF e.text # e.text2 THEN "text" ELSE ""
Verdict(e) ==
  CASE e.op = "parse" -> LET p == Parse(e.text, e.sub, e.intz) IN First(<<Tag("fast parser", Result(p, e.fast)), Tag("slow parser", Result(p, e.slow))>>)
    [] e.op = "build" -> LET p == Parse(e.text, TRUE, TRUE) IN IF ~Covers(p) THEN "" ELSE Tag("circuit from text", CircOf(e, p, e.out))
    [] e.op = "text" -> Tag("text of a circuit", Text0(e))
    [] e.op = "label" -> LET p == Parse(e.text, TRUE, TRUE) IN Tag("text of a label", IF ~p.ok THEN "cannot be read" ELSE IF ~Denotes(<<e.label>>, p) THEN "other label" ELSE "")
    [] e.op = "pair" -> Tag("comparison", Pair(e))
    [] e.op = "route" -> Tag(e.route, Route(e))
    [] e.op = "list" -> Tag("file of circuits", IF e.raised THEN "failed" ELSE IF Len(e.out) # Len(e.texts) THEN "number of circuits"
         ELSE First([i \in 1..Len(e.texts) |-> LET p == Parse(e.texts[i], TRUE, TRUE) o == e.out[i] IN
                IF ~p.ok THEN "text cannot be read" ELSE IF p.named /\ o.lines # p.lines THEN "lines" ELSE IF ~p.named /\ e.deflt # <<>> /\ o.lines # e.deflt THEN "default lines"
                ELSE IF ~SameGates(Outs(p.layers), Outs(o.layers)) THEN "layers" ELSE IF o.text # e.texts[i] THEN "text" ELSE ""]))
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> v, want |-> IF e.op = "parse" THEN Parse(e.text, e.sub, e.intz) ELSE <<>>]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
