---------------------------- MODULE EvalPlanTrace ----------------------------
(* Checks plans recorded after construction, splitting, squeezing, copying.    *)
EXTENDS EvalPlan, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bad
T == Traces[tid]
Finals(p) == LET r == Run(p) IN [f \in 1..p.nfinal |-> r.v[f]]
Verdict(e) ==
  IF e.raised THEN "the operation failed: " \o e.msg
  ELSE LET w == Whole(e.plan) IN
    IF w # "" THEN w
    ELSE LET d == Division(e.plan, e.subs) IN
      IF d # "" THEN "sub-plans: " \o d
      ELSE LET k == Lookup(e.plan, T.qs, e.look, e.outs) IN
        IF k # "" THEN "lookup: " \o k
        ELSE IF e.op = "split" /\ e.want > 0 /\ (IF e.subs = <<>> THEN 1 ELSE Len(e.subs)) < e.want THEN "fewer sub-plans than requested"
        ELSE IF e.gen # [f \in 1..e.plan.nfinal |-> Finals(e.plan)[f]] THEN "computed circuits in plan order"
        ELSE IF (\E f \in 1..e.plan.nfinal : e.orig[f] # Finals(e.plan)[e.perm[f]] \/ e.orig[f] # T.finals[f]) THEN "computed circuits in original order"
        ELSE IF e.back # e.perm \/ (\E f \in 1..e.plan.nfinal : e.fwd[e.perm[f]] # f) THEN "results in original order"
        ELSE IF e.op = "squeeze" /\ e.plan.cachesize > e.size THEN "cache is larger than allowed"
        ELSE IF e.op \in {"after", "copy"} /\ (T.ev[e.prev].plan # e.plan \/ T.ev[e.prev].subs # e.subs \/ T.ev[e.prev].perm # e.perm) THEN (IF e.op = "copy" THEN "the copy differs" ELSE "changed by an operation on its copy")
        ELSE ""
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> ""]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
