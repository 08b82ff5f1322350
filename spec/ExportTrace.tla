---------------------------- MODULE ExportTrace ----------------------------
(* Judges programs that the real code wrote for circuits (Export.tla).       *)
EXTENDS Export, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bad
Opt(e) == [idle |-> e.idle, between |-> e.between, around |-> e.around,
           bit |-> [x \in Rg(e.c.lines) |-> e.bits[CHOOSE i \in 1..Len(e.c.lines) : e.c.lines[i] = x]]]
(* which circuits have a translation: gates with a name on at most two qubits, one after the other or on all *)
Convertible(c) == (\A i \in 1..Len(c.lines) : c.lines[i] >= 0)
  /\ \A l0 \in 1..Len(c.layers) : \A i \in 1..Len(c.layers[l0]) : LET g == c.layers[l0][i] IN g.n # "" /\ Len(g.q) <= 2 /\ (g.im => Len(g.q) = 1)
Tag(t, v) == IF v = "" THEN "" ELSE t \o ": " \o v
Verdict(e) ==
  CASE e.op = "program" -> Tag(e.fmt, IF e.raised THEN (IF Convertible(e.c) THEN "no program" ELSE "") ELSE IF ~Convertible(e.c) THEN "a program for a circuit that has none"
                                ELSE IF e.strange # <<>> THEN "not a statement: " \o e.strange[1] ELSE Judge(e.c, Opt(e), e.p))
    [] e.op = "defs" -> Tag("definitions", IF e.raised THEN "failed" ELSE IF Len(e.got) # Len(e.want) \/ Rg(e.got) # Rg(e.want) THEN "not the declared matrices" ELSE "")
    [] e.op = "word1" -> Tag("gate name " \o e.name, IF e.f \notin Known1 THEN "unknown word" ELSE IF Near(Meaning1(e.f, e.a), e.rot) THEN "" ELSE "another gate")
    [] e.op = "word2" -> Tag("gate name " \o e.name, IF Meaning2(e.f) = e.img THEN "" ELSE "another gate")
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> v, want |-> IF e.op = "program" /\ Convertible(e.c) THEN Compile(e.c, Opt(e)) ELSE <<>>]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
