---------------------------- MODULE CliffordAlgTrace ---------------------------
(* Judges what the symplectic algebra and the Clifford compilers really          *)
(* returned.  The gates of a trace are unitaries; their tableaux are checked     *)
(* against them before anything else is believed.                                *)
EXTENDS CliffordAlg, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Rg(s) == {s[i] : i \in 1 .. Len(s)}
Tr == Traces[tid]
Lib == [g \in 1 .. Len(Tr.gates) |-> Tr.gates[g].t]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE MulAll(_)
MulAll(ms) == IF Len(ms) = 1 THEN ms[1] ELSE MulM(ms[1], MulAll(Tail(ms)))
ShapeOk(T, n) == Len(T) = 2 * n /\ \A c \in 1 .. 2 * n : PauliOk(T[c], n)

(* ------------------------------ circuits ------------------------------------- *)
LayerQ(lay) == Flat([i \in 1 .. Len(lay) |-> lay[i].q])
Disjoint(lay) == Cardinality(Rg(LayerQ(lay))) = Len(LayerQ(lay))
InRange(lay, n) == \A i \in 1 .. Len(lay) : lay[i].g \in 1 .. Len(Tr.gates) /\ \A k \in 1 .. Len(lay[i].q) : lay[i].q[k] \in 1 .. n
Usable(gq, al) == \E i \in 1 .. Len(al) : al[i].g = gq.g /\ al[i].q = gq.q
Structure(e) ==
  IF ~\A i \in 1 .. Len(e.lays) : InRange(e.lays[i], e.n) THEN "gate or qubit outside the request"
  ELSE IF Len(e.lines) # e.n \/ Rg(e.lines) # 1 .. e.n THEN "lines of the circuit"
  ELSE IF ~\A i \in 1 .. Len(e.lays) : Disjoint(e.lays[i]) THEN "two gates on a qubit in a layer"
  ELSE IF ~\A i \in 1 .. Len(e.lays) : \A j \in 1 .. Len(e.lays[i]) : Usable(e.lays[i][j], e.allowed) THEN "gate that is not available"
  ELSE ""
\* C: what the circuit does; T: what was asked for
Does(kind, C, T) ==
  CASE kind = "exact" -> IF C = T THEN "" ELSE IF UpToPauli(C, T) THEN "Paulis of the operation" ELSE "operation"
    [] kind = "paulis" -> IF UpToPauli(C, T) THEN "" ELSE "operation up to Paulis"
    [] kind = "state" -> IF SameState(T, C) THEN "" ELSE "state"
    [] kind = "meas" -> IF MapsToZero(T, C) THEN "" ELSE "state measured"
    [] kind = "cond" -> IF \A c \in NQ(T) + 1 .. 2 * NQ(T) : C[c].x = T[c].x /\ C[c].z = T[c].z THEN "" ELSE "images of the Zs"
Compile(e) ==
  LET s == Structure(e) IN
  IF s # "" THEN s ELSE Does(e.kind, CircuitT(Flat(e.lays), e.n, Lib), e.target)
(* ------------------------------- algebra ------------------------------------- *)
Pauli(s, n) == [x |-> [i \in 1 .. n |-> IF s[i] \in {"X", "Y"} THEN 1 ELSE 0],
                z |-> [i \in 1 .. n |-> IF s[i] \in {"Z", "Y"} THEN 1 ELSE 0], p |-> 0]
Is(b, w) == IF b THEN "" ELSE w
\* rels: what is claimed; pairs that multiply to a gate of the list (or to nothing) must be claimed
Rel(e) ==
  LET same(A, B) == IF e.paulis THEN UpToPauli(A, B) ELSE A = B
      pr(r) == Compose(Lib[r[1]], Lib[r[2]])
      id == Identity(1)
      rels == Rg(e.rels)
  IN IF \E r \in rels : ~(IF r[3] = 0 THEN same(pr(r), id) ELSE same(pr(r), Lib[r[3]])) THEN "product"
     ELSE IF \E a \in Rg(e.one) : \E b \in Rg(e.one) :
               (same(pr(<<a, b>>), id) \/ \E c \in Rg(e.one) : same(pr(<<a, b>>), Lib[c])) /\ ~\E r \in rels : r[1] = a /\ r[2] = b
     THEN "product left out"
     ELSE IF \E r \in Rg(e.inv) : ~IsInverse(Lib[r[1]], Lib[r[2]]) THEN "inverse"
     ELSE IF \E a \in Rg(e.all) : \E b \in Rg(e.all) :
               NQ(Lib[a]) = NQ(Lib[b]) /\ IsInverse(Lib[a], Lib[b]) /\ ~\E r \in Rg(e.inv) : r[1] = a
     THEN "inverse left out" ELSE ""
Mat(e) ==
  CASE e.what = "mul" -> Is(e.r = MulAll(e.ms), "product")
    [] e.what = "det" -> Is(e.r = DetM(e.ms[1]), "determinant")
    [] e.what = "inv" -> Is(MulM(e.r, e.ms[1]) = IdM(NR(e.ms[1])), "inverse")
    [] e.what = "solve" -> Is(MulM(e.ms[1], e.r) = e.ms[2], "solution")
    [] e.what = "sum" -> Is(e.r = [i \in 1 .. NR(e.ms[1]) + NR(e.ms[2]) |-> IF i <= NR(e.ms[1])
                                      THEN e.ms[1][i] \o Zeros(NR(e.ms[2])) ELSE Zeros(NR(e.ms[1])) \o e.ms[2][i - NR(e.ms[1])]], "direct sum")
    [] e.what = "square" -> Is(MulM(e.r, TransM(e.r)) = e.ms[1], "factor")
    [] e.what = "ones" -> LET d == MulM(MulM(e.r, e.ms[1]), TransM(e.r)) IN
                          Is(RankM(e.r) = NR(e.r) /\ \A i \in 1 .. NR(d) : d[i][i] = 1, "diagonal")
    [] e.what = "perm" -> LET d == MulM(MulM(e.r, e.ms[1]), TransM(e.r)) IN
                          Is(/\ \A i \in 1 .. NR(e.r) : SumSeq(e.r[i]) = 1 /\ SumSeq(Col(e.r, i)) = 1
                             /\ \A i \in 1 .. NR(d) : DetM([a \in 1 .. NR(d) - i + 1 |-> [b \in 1 .. NR(d) - i + 1 |-> d[a + i - 1][b + i - 1]]]) = 1,
                             "sub-matrices")
    [] e.what = "checkperm" -> Is(e.r = (\A i \in 1 .. NR(e.ms[1]) : DetM([a \in 1 .. NR(e.ms[1]) - i + 1 |->
                                  [b \in 1 .. NR(e.ms[1]) - i + 1 |-> e.ms[1][a + i - 1][b + i - 1]]]) = 1), "verdict")
    [] e.what = "rinv" -> Is(RankM(e.r) = NR(e.r) /\ NR(e.r) = e.n, "invertible")
    [] e.what = "rsym" -> Is(RankM(e.r) = NR(e.r) /\ NR(e.r) = e.n /\ SymmetricM(e.r), "symmetric and invertible")
    [] e.what = "rbits" -> Is(Len(e.r) = e.n /\ SumSeq(e.r) % 2 = e.par, "parity")
Judge(e) ==
  CASE e.op = "gates" -> Is(\A g \in 1 .. Len(Tr.gates) : ValidT(Tr.gates[g].t) /\ Realises(Tr.gates[g].u, Tr.gates[g].t), "table of gates (harness)")
    [] e.op = "compose" -> Is(e.r = Compose(e.a, e.b), "result")
    [] e.op = "inverse" -> Is(ShapeOk(e.r, NQ(e.a)) /\ e.r = InvT(e.a), "result")
    [] e.op = "inversemat" -> Is(UpToPauli(e.r, InvT(e.a)), "result")
    [] e.op = "kron" -> Is(e.r = KronT(e.ts), "result")
    [] e.op = "embed" -> Is(e.r = EmbedT(e.a, e.q, e.n), "result")
    [] e.op = "valid" -> Is(e.r = ValidT(e.a), "verdict")
    [] e.op = "issymp" -> Is(e.r = SympM(e.m, e.std), "verdict")
    [] e.op = "sampled" -> Is(Len(e.r) = 2 * e.n /\ ValidT(e.r), "not a Clifford")
    [] e.op = "sampledmat" -> Is(Len(e.r) = 2 * e.n /\ SympM(e.r, e.std), "not symplectic")
    [] e.op = "phases" -> Is(ValidT(e.r) /\ \A c \in 1 .. Len(e.a) : LET d == (e.r[c].p - e.a[c].p) % 4 IN
                                d = (IF HermitianP(e.a[c]) THEN 0 ELSE 1), "result")
    [] e.op = "pauli" -> LET P == Pauli(e.s, NQ(e.a))
                             C == IF e.pre THEN Compose(PauliT(P), e.a) ELSE Compose(e.a, PauliT(P))
                         IN Is(C = e.want, "Pauli layer")
    [] e.op = "fromU" -> IF e.clifford THEN Is(ShapeOk(e.r, Log2(Len(e.u.m))) /\ ValidT(e.r) /\ Realises(e.u, e.r), "result")
                         ELSE Is(~IsClifford(e.u), "refused a Clifford")
    [] e.op = "table" -> Is(e.r = Lib[e.g], "symplectic representation")
    [] e.op = "circ" -> Is(e.r = CircuitT(e.gs, e.n, Lib), "result")
    [] e.op = "line" -> Is(UpToPauli(e.r, IF e.col THEN Compose(EmbedT(Lib[e.g], e.q, NQ(e.a)), e.a) ELSE ThenGate(e.a, Lib[e.g], e.q)), "matrix")
    [] e.op = "order" -> Is(e.r = (IF e.std THEN FromPairs(e.m) ELSE ToPairs(e.m)), "result")
    [] e.op = "group" -> Is(/\ \A i \in 1 .. Len(e.ms) : SympM(e.ms[i], FALSE)
                            /\ Cardinality(Rg(e.ms)) = NSymp(e.n) /\ e.count = NSymp(e.n)
                            /\ \A i \in 1 .. Len(e.ms) : e.labels[i] = i - 1, "numbering of the group")
    [] e.op = "count" -> Is(e.symp = NSymp(e.n) /\ e.cliff = NSymp(e.n) * Pow2(2 * e.n), "number of elements")
    [] e.op = "mat" -> Mat(e)
    [] e.op = "bits" -> Is(e.r = [i \in 1 .. Len(e.p) \div 2 |-> IF e.p[i + Len(e.p) \div 2] > 0 THEN 1 ELSE 0], "bits")
    [] e.op = "rel" -> Rel(e)
    [] e.op = "compile" -> Compile(e)
    [] e.op = "layers" -> LET s == Structure(e) IN IF s # "" THEN s
                          ELSE Does("cond", CircuitT(e.first \o Flat(e.lays), e.n, Lib), e.target)
Verdict(e) == IF e.raised THEN "failed" ELSE LET v == Judge(e) IN IF v # "" THEN v ELSE Is(e.kept, "an argument changed")
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Tr.ev)
        /\ LET e == Tr.ev[l]  v == Verdict(e) IN
             /\ bad' = v
             /\ IF v = "" THEN TRUE
                ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o " (" \o e.name \o "): " \o v, want |-> ""]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
