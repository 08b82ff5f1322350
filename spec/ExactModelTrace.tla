--------------------------- MODULE ExactModelTrace ---------------------------
(* Judges what real models reported: member values, probabilities, products,    *)
(* derivatives, values after gauge transformations.                             *)
EXTENDS ExactModel, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ms, bad
vars == <<tid, l, ms, bad>>
Is(b, w) == IF b THEN "" ELSE w
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstOf(Tail(s))
Range(s) == {s[i] : i \in 1..Len(s)}

After(e) ==
    CASE e.op = "model" -> Append(ms, [m |-> e.m, th |-> e.th, r |-> TLCEval(RealModel(e.m, e.th))])
      [] e.op = "copy"  -> Append(ms, ms[e.h])
      [] e.op = "vec"   -> [ms EXCEPT ![e.h] = [m |-> @.m, th |-> e.th, r |-> TLCEval(RealModel(@.m, e.th))]]
      [] e.op = "gauge" -> [ms EXCEPT ![e.h] = [m |-> TLCEval(Gauge(@.r, e.S, e.Si)), th |-> <<>>, r |-> TLCEval(Gauge(@.r, e.S, e.Si))]]
      [] OTHER -> ms

(* ------------------------------ members ------------------------------ *)
\* o: [h, th (has), preps, ops: name -> matrix, insts, povms]
MemOk(s, o) ==
    LET N == o.N IN
    FirstOf(<<Is(Len(o.th) = 0 \/ o.th = s.th, "parameter vector")>>
      \o [i \in 1..Len(o.ops) |-> Is(o.ops[i].m = OpMx(s.r.ops[o.ops[i].n], N), "operation " \o o.ops[i].n)]
      \o [i \in 1..Len(o.preps) |-> Is(o.preps[i].v = Val(s.r.preps[o.preps[i].n]), "preparation " \o o.preps[i].n)]
      \o [i \in 1..Len(o.effs) |->
            LET es == s.r.povms[o.effs[i].n]  K == {k \in 1..Len(es) : es[k].o = o.effs[i].o}
            IN IF K = {} THEN "unknown outcome" ELSE Is(o.effs[i].v = Val(es[CHOOSE k \in K : TRUE].v), "effect of " \o o.effs[i].n)]
      \o [i \in 1..Len(o.insts) |->
            LET es == s.r.insts[o.insts[i].n]  K == {k \in 1..Len(es) : es[k].o = o.insts[i].o}
            IN IF K = {} THEN "unknown outcome" ELSE Is(o.insts[i].m = OpMx(es[CHOOSE k \in K : TRUE].t, N), "instrument " \o o.insts[i].n)])
Looks(A, e) == FirstOf([i \in 1..Len(e.obs) |->
    LET w == MemOk(A[e.obs[i].h], e.obs[i]) IN IF w = "" \/ e.obs[i].h = e.h THEN w ELSE w \o " of another model changed"])

(* ------------------------------ predictions ------------------------------ *)
Clip(p, c) == IF c = <<>> THEN p ELSE IF p < c[1] THEN c[1] ELSE IF p > c[2] THEN c[2] ELSE p
Keys(res) == {<<res[k].i, res[k].o>> : k \in 1..Len(res)}
OutOk(W, res) == \* W: expected outcomes
    IF Len(res) # Cardinality(Keys(res)) THEN "outcome twice"
    ELSE Is(Keys(res) = {<<w.i, w.o>> : w \in W}, "outcomes")
ProbOk(s, c, res, clip) ==
    LET W == Probs(s.r, c)
    IN FirstOf(<<OutOk(W, res), IF \A w \in W : \E k \in 1..Len(res) : res[k].i = w.i /\ res[k].o = w.o /\ res[k].p = Clip(w.p, clip)
                                THEN "" ELSE "probability">>)
\* values of map simulations are finite differences: exact up to a tolerance derived from their size (0 for the others)
Near(x, y, t) == x - y <= t /\ y - x <= t
DerOk(s, c, res, ps, t) == \* ps: parameter reported at each position
    FirstOf([x \in 1..Len(ps) |->
        LET W == DProbs(s.r, c, ps[x]) IN
        IF OutOk(W, res) # "" THEN OutOk(W, res)
        ELSE Is(\A w \in W : \E k \in 1..Len(res) : res[k].i = w.i /\ res[k].o = w.o /\ Len(res[k].d) = Len(ps) /\ Near(res[k].d[x], w.d, t), "derivative")])
\* pairs: [x, y] positions looked at; pa, pb: parameters at the positions
HesOk(s, c, res, pa, pb, pairs, t) ==
    FirstOf([z \in 1..Len(pairs) |->
        LET x == pairs[z][1]  y == pairs[z][2]
            W == HProbs(s.r, c, pa[x], pb[y]) IN
        IF OutOk(W, res) # "" THEN OutOk(W, res)
        ELSE Is(\A w \in W : \E k \in 1..Len(res) : res[k].i = w.i /\ res[k].o = w.o /\ Near(res[k].h[z], w.h, t), "second derivative")])
D12Ok(s, c, res, pa, pb, pairs, t) ==
    FirstOf([z \in 1..Len(pairs) |->
        LET O == Outcomes(s.r, c, pa[pairs[z][1]], pb[pairs[z][2]])
        IN Is(\A w \in O : \E k \in 1..Len(res) : res[k].i = w.i /\ res[k].o = w.o /\ Near(res[k].d12[z], w.j.a * w.j.b, t), "product of derivatives")])
Each(e, F(_,_)) == IF Len(e.res) # Len(e.cs) THEN "number of circuits" ELSE FirstOf([k \in 1..Len(e.cs) |-> F(e.cs[k], e.res[k])])
TermOf(s, c) == [k |-> "comp", f |-> [i \in 1..Len(c.items) |-> OpTerm(s.r, c.items[i])]]
Query(s, e) ==
    CASE e.op = "probs" -> LET F(c, r) == ProbOk(s, c, r, e.clip) IN Each(e, F)
      [] e.op = "dprobs" ->
           LET F(c, r) == FirstOf(<<DerOk(s, c, r, e.ps, e.told), IF e.pr THEN ProbOk(s, c, r, e.clip) ELSE "">>) IN Each(e, F)
      [] e.op = "hprobs" ->
           LET F(c, r) == FirstOf(<<IF e.hes THEN HesOk(s, c, r, e.pa, e.pb, e.pairs, e.tolh) ELSE "",
                                    IF e.pr THEN ProbOk(s, c, r, e.clip) ELSE "",
                                    IF e.der THEN DerOk(s, c, r, e.ps, e.told) ELSE "",
                                    IF e.der2 THEN DerOk(s, c, [k \in 1..Len(r) |-> [i |-> r[k].i, o |-> r[k].o, d |-> r[k].g]], e.ps2, e.told) ELSE "",
                                    IF e.d12 THEN D12Ok(s, c, r, e.pa, e.pb, e.pairs, e.told) ELSE "">>) IN Each(e, F)
      [] e.op = "product" -> LET F(c, r) == Is(r = CircMx(s.r, c, e.N), "product") IN Each(e, F)
      [] e.op = "dproduct" -> \* r: per parameter of ps the derivative matrix
           LET F(c, r) == FirstOf([x \in 1..Len(e.ps) |->
                 LET cols == TLCEval(OpJetCols(TermOf(s, c), e.N, e.ps[x], 0))
                 IN Is(r[x] = [i \in 1..e.N |-> [j \in 1..e.N |-> cols[j].a[i]]], "derivative of a product")]) IN Each(e, F)
      [] e.op = "hproduct" ->
           LET F(c, r) == FirstOf([z \in 1..Len(e.pairs) |->
                 LET cols == TLCEval(OpJetCols(TermOf(s, c), e.N, e.pairs[z][1], e.pairs[z][2]))
                 IN Is(r[z] = [i \in 1..e.N |-> [j \in 1..e.N |-> cols[j].ab[i]]], "second derivative of a product")]) IN Each(e, F)
      [] OTHER -> ""

Verdict(e, A) == IF e.raised THEN "failed"
    ELSE FirstOf(<<IF e.op \in {"model", "copy", "vec", "gauge", "look"} THEN "" ELSE Query(ms[e.h], e), Looks(A, e)>>)

Want(e, A) == CASE e.op = "probs" -> [k \in 1..Len(e.cs) |-> Probs(A[e.h].r, e.cs[k])]
                [] OTHER -> <<>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ ms = <<>>
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]  A == TLCEval(After(e))  v == Verdict(e, A) IN
             /\ bad' = v /\ ms' = A
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v, want |-> Want(e, ms)]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
