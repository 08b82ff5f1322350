-------------------------- MODULE HypoTestTrace ---------------------------
(* Checks recorded multiple tests against HypoTest.tla. *)
EXTENDS HypoTest, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ps, bad
Rat(x) == Q(x[1], x[2])
RatS(s) == [i \in 1..Len(s) |-> Rat(s[i])]
Cfg == Traces[tid].cfg
Graph == IF Cfg.holm THEN HolmGraph(Cfg.kind) ELSE [i \in 1..Len(Cfg.graph) |-> RatS(Cfg.graph[i])]
Want == Test(Cfg.kind, Rat(Cfg.alpha), Cfg.w, Graph, ps)
(* e.got: the flags, in the same structure as the hypotheses *)
Corr(e) ==     \* plain corrections: shares of the significance level, times a common denominator
  CASE e.what = "bonferroni" -> <<Div(Rat(e.alpha), <<e.n, 1>>)>>
    [] e.what = "generalized" -> [i \in 1..Len(e.w) |-> LET a == Mul(Rat(e.alpha), Q(e.w[i], SumI(e.w)))
                                    IN IF e.num = <<>> THEN a ELSE Div(a, <<e.num[i], 1>>)]
RECURSIVE PowQ(_, _)
PowQ(a, n) == IF n = 0 THEN One ELSE Mul(a, PowQ(a, n - 1))
(* Sidak: the chance of no false alarm in n independent tests at the corrected level is 1 - alpha *)
Sidak(x, n, alpha) == Sub(One, PowQ(Sub(One, x), n)) = alpha
Verdict(e) ==
  CASE e.op = "pvalues" -> ""
    [] e.op = "implement" -> IF e.got # Want THEN "rejected hypotheses" ELSE ""
    [] e.op = "sidak" -> IF \E i \in 1..Len(e.got) : ~Sidak(Rat(e.got[i]), e.n[i], Rat(e.alpha[i])) THEN "corrected significance" ELSE ""
    [] e.op = "corr" -> IF \E i \in 1..Len(Corr(e)) : Len(e.got) # Len(Corr(e)) \/ Rat(e.got[i]) # Corr(e)[i] THEN "corrected significance" ELSE ""
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ps = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(e) IN
             /\ bad' = v
             /\ ps' = IF e.op = "pvalues" THEN [i \in 1..Len(e.p) |-> RatS(e.p[i])] ELSE ps
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v,
                    want |-> IF e.op = "corr" THEN Corr(e) ELSE IF e.op = "sidak" THEN e.alpha ELSE Want]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, ps, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
