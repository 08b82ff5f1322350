--------------------------- MODULE DataSetTrace ---------------------------
(* Checks recorded histories of real data sets against DataSet.tla.        *)
EXTENDS DataSet, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, bad

RowProj(r) == <<r.c, r.occ, r.d, r.aux>>
SameAux(a, b) == a = "*" \/ a = b
SameRow(x, y) == x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ SameAux(x[4], y[4])
Clause(ds, o) ==   \* o: observed projection
  IF ~ds.live THEN (IF o.live THEN "slot should be empty" ELSE "")
  ELSE IF ~o.live THEN "slot should be live"
  ELSE IF Multi(ds) # Multi(o) THEN "kind of slot"
  ELSE IF Multi(ds) THEN
    IF o.keys # ds.keys THEN "circuits of the multi-data-set"
    ELSE IF Map(o.sets, LAMBDA x : x[1]) # Map(ds.sets, LAMBDA x : x[1]) THEN "names"
    ELSE IF \E i \in 1..Len(o.sets) : o.sets[i][2] # ds.sets[i][2] THEN "data of member " \o ToString(CHOOSE i \in 1..Len(o.sets) : o.sets[i][2] # ds.sets[i][2])
    ELSE IF \E i \in 1..Len(o.sets) : o.sets[i][3] # ds.sets[i][3] THEN "collision policy of a member"
    ELSE IF \E i \in 1..Len(o.aux) : ~SameAux(ds.aux[i], o.aux[i]) THEN "auxiliary information of the multi-data-set"
    ELSE ""
  ELSE IF o.ols # ds.ols THEN "outcome labels"
  ELSE IF o.static # ds.static THEN "static flag"
  ELSE IF o.pol # ds.pol THEN "collision policy"
  ELSE IF Len(o.rows) # Len(ds.rows) THEN "number of rows"
  ELSE IF \E i \in 1..Len(ds.rows) : ~SameRow(RowProj(ds.rows[i]), o.rows[i])
       THEN "row " \o ToString(CHOOSE i \in 1..Len(ds.rows) : ~SameRow(RowProj(ds.rows[i]), o.rows[i]))
  ELSE IF o.reps # ds.reps THEN "repetition counts kept"
  ELSE IF o.n # Len(ds.rows) THEN "len"
  ELSE IF o.has # Map(ds.rows, LAMBDA r : TRUE) THEN "membership"
  ELSE ""

RowReads(ds, r, o) ==
  LET d == r.d IN
  IF o.counts # Counts(ds, d) THEN "counts"
  ELSE IF o.all # AllCounts(ds, d) THEN "allcounts"
  ELSE IF o.tot # Total(d) THEN "total"
  ELSE IF o.len # Len(d) THEN "row length"
  ELSE IF o.dict # Counts(ds, d) THEN "as_dict"
  ELSE IF o.outs # Outs(d) THEN "outcomes"
  ELSE IF o.idx # d THEN "indexing"
  ELSE IF o.look # Map(o.pool, LAMBDA x : IF In(x, ds.ols) THEN CountOf(d, x) ELSE -1) THEN "lookup by outcome"
  ELSE IF o.isin # Map(o.pool, LAMBDA x : In(x, Outs(d))) THEN "membership of outcome"
  ELSE IF Total(d) > 0 /\ (Len(o.frac) # Len(Counts(ds, d)) \/ \E i \in 1..Len(o.frac) :
              o.frac[i][1] # Counts(ds, d)[i][1] \/ o.frac[i][2] * Total(d) # o.frac[i][3] * Counts(ds, d)[i][2]) THEN "fractions"
  ELSE IF Total(d) > 0 /\ \E i \in 1..Len(o.pool) :
              o.frac1[i][1] * Total(d) # o.frac1[i][2] * CountOf(d, o.pool[i]) THEN "fraction"
  ELSE IF Whole(d) /\ o.exp # Expanded(d) THEN "expanded outcomes/times"
  ELSE IF \E i \in 1..Len(o.at) : o.at[i][2] # AtTime(ds, d, o.at[i][1]) THEN "counts at time"
  ELSE IF ~Sorted(d) THEN ""
  ELSE IF o.times # Times(d) THEN "times"
  ELSE IF o.nt # Len(Times(d)) THEN "number of times"
  ELSE IF o.series # Series(d) THEN "time series"
  ELSE IF o.reps # RepSeries(d) THEN "repetitions per time"
  ELSE IF o.outser # Map(ds.ols, LAMBDA x : <<x, SeriesOf(d, x)>>) THEN "time series by outcome"
  ELSE IF d # <<>> /\ o.const # Constant(d) THEN "constant total counts"
  ELSE IF \E i \in 1..Len(o.one) : o.one[i][2] # OneSeries(d, o.one[i][1]) THEN "time series of one outcome"
  ELSE IF \E i \in 1..Len(o.samp) : o.samp[i][2] # SampledSeries(d, o.samp[i][1], o.ts) THEN "time series at given times"
  ELSE IF Len(Times(d)) >= 2 /\ o.step[1] * (Len(Times(d)) - 1) # o.step[2] * (Times(d)[Len(Times(d))] - Times(d)[1]) THEN "mean time step"
  ELSE ""

RECURSIVE FirstBad(_, _, _)
FirstBad(ds, os, i) == IF i > Len(os) THEN ""
   ELSE LET c == RowReads(ds, ds.rows[i], os[i]) IN IF c # "" THEN c \o " of row " \o ToString(i) ELSE FirstBad(ds, os, i+1)
AllSorted(ds) == \A i \in 1..Len(ds.rows) : Sorted(ds.rows[i].d)
ReadClause(ds, o) ==
  IF Len(o.rows) # Len(ds.rows) THEN "number of rows read"
  ELSE LET c == FirstBad(ds, o.rows, 1) IN
  IF c # "" THEN c
  ELSE IF o.vals # Map(ds.rows, LAMBDA r : Total(r.d)) THEN "iteration over values"
  ELSE IF o.strip # Map(ds.rows, LAMBDA r : IF ds.pol = "keep" THEN <<r.c, 0>> ELSE <<r.c, r.occ>>) THEN "keys without occurrence tags"
  ELSE IF o.absent # <<>> THEN "absent circuit found"
  ELSE IF {o.gates[i] : i \in 1..Len(o.gates)} # UNION {{o.cg[i][j] : j \in 1..Len(o.cg[i])} : i \in 1..Len(o.cg)} \/ ~NoDups(o.gates) THEN "gate labels"
  ELSE IF o.triv # Trivial(ds) THEN "trivial time dependence"
  ELSE IF ~AllFilled(ds) THEN ""
  ELSE IF o.ct # ConstTotals(ds) THEN "constant totals"
  ELSE IF ~AllSorted(ds) THEN ""
  ELSE IF o.ctt # ConstPerTime(ds) THEN "constant totals per time"
  ELSE IF o.dof # <<Dof(ds, TRUE, TRUE), Dof(ds, TRUE, FALSE), Dof(ds, FALSE, TRUE), Dof(ds, FALSE, FALSE)>> THEN "degrees of freedom"
  ELSE ""

RECURSIVE FirstSlot(_, _, _, _)
FirstSlot(p, q, obs, s) ==
  IF s > Len(q) THEN ""
  ELSE LET K == {k \in 1..Len(obs) : obs[k].slot = s}
           c == IF K # {} THEN Clause(q[s], obs[CHOOSE k \in K : TRUE])
                ELSE IF q[s] # p[s] THEN "the operation had no effect" ELSE ""
       IN IF c # "" THEN "slot " \o ToString(s) \o ": " \o c ELSE FirstSlot(p, q, obs, s+1)

Verdict(p, e) ==
  LET r == Step(p, e) IN
  IF e.raised # ~r.ok THEN (IF e.raised THEN "the operation was rejected" ELSE "the operation should have been rejected")
  ELSE IF e.op = "mtogether" THEN IF e.got # Together(p[e.s], e.names) THEN "aggregated members" ELSE ""
  ELSE IF e.op = "read" THEN ReadClause(p[e.s], e.got)
  ELSE FirstSlot(p, r.pool, e.obs, 1)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ st = [s \in 1..Traces[tid].slots |-> Dead]
(* "*" auxiliary tokens are resolved by what was observed *)
Resolve(q, obs) == [s \in 1..Len(q) |->
   IF \E k \in 1..Len(obs) : obs[k].slot = s /\ obs[k].live
   THEN LET o == obs[CHOOSE k \in 1..Len(obs) : obs[k].slot = s] IN
        IF Multi(q[s]) THEN [q[s] EXCEPT !.aux = [i \in 1..Len(@) |-> IF @[i] = "*" THEN o.aux[i] ELSE @[i]]] ELSE
        [q[s] EXCEPT !.rows = [i \in 1..Len(@) |-> IF @[i].aux = "*" THEN [@[i] EXCEPT !.aux = o.rows[i][4]] ELSE @[i]]]
   ELSE q[s]]
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] v == Verdict(st, e) r == Step(st, e) IN
             /\ bad' = v
             /\ st' = IF v = "" /\ e.op \notin {"read", "mtogether"} THEN Resolve(r.pool, e.obs) ELSE st
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> IF e.op = "mtogether" THEN Together(st[e.s], e.names) ELSE IF r.ok /\ e.op # "read" THEN r.pool[Target(e)] ELSE st[e.s]]))
        /\ l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, st, bad>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
AllWellFormed == bad # "" \/ \A s \in DOMAIN st : WellFormed(st[s])
=============================================================================
