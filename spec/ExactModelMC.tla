---------------------------- MODULE ExactModelMC ----------------------------
(* Theorems about the semantics itself, on every short circuit over models with *)
(* every kind of term: the matrix picture, the picture on effects and the       *)
(* vector picture agree; derivatives are those of the polynomial; gauge         *)
(* transformations change nothing; sums over outcomes; lines that do not meet   *)
(* commute.                                                                     *)
EXTENDS ExactModel, Json
CONSTANTS Which, MaxLen, Emit
VARIABLES c, done

P2(a, i, j, x) == [a |-> a, i |-> i, j |-> j, c |-> x]
P1(a, i, x) == [a |-> a, i |-> i, c |-> x]
A1 == [k |-> "mx", m0 |-> <<<<1,0,0,0>>, <<0,1,0,-1>>, <<0,0,1,0>>, <<1,1,0,0>>>>, p |-> <<P2(1,2,2,1), P2(2,4,1,1), P2(2,2,4,2)>>]
B1 == [k |-> "mx", m0 |-> <<<<1,0,0,0>>, <<0,0,1,0>>, <<0,-1,0,0>>, <<2,0,0,1>>>>, p |-> <<P2(2,2,3,1), P2(3,1,1,-1)>>]
S1 == [k |-> "mx", m0 |-> <<<<0,1,0,0>>, <<1,0,0,1>>, <<0,0,1,0>>, <<0,1,0,1>>>>, p |-> <<>>]
V1 == [k |-> "vec", m0 |-> <<1,0,1,2>>, p |-> <<P1(1,1,1), P1(3,4,-1)>>]
V2 == [k |-> "vec", m0 |-> <<1,1,0,-1>>, p |-> <<P1(2,2,1)>>]
E1 == [k |-> "vec", m0 |-> <<1,0,0,1>>, p |-> <<P1(3,1,1), P1(2,4,1)>>]
Cpl(id, f) == [k |-> "compl", id |-> id, f |-> f]
Cmp(f) == [k |-> "comp", f |-> f]
Emb(on, t) == [k |-> "emb", on |-> on, n |-> 2, t |-> t]
Kr(f) == [k |-> "kron", f |-> f]
\* a two-line operation: exchange of the lines after an operation on the first
K2(x, y) == [i \in 1..16 |-> [j \in 1..16 |-> x[((i-1) \div 4) + 1][((j-1) \div 4) + 1] * y[((i-1) % 4) + 1][((j-1) % 4) + 1]]]
Two == [k |-> "mx", m0 |-> K2(S1.m0, A1.m0), p |-> <<P2(1, 3, 7, 1), P2(3, 16, 1, 2)>>]

Model1 == [preps |-> [rho |-> V1], ops |-> [a |-> A1, b |-> Cmp(<<B1, A1, S1>>), d |-> [k |-> "exp", n |-> 2, t |-> B1]],
           insts |-> [z |-> <<[o |-> "p", t |-> A1], [o |-> "q", t |-> Cmp(<<S1, B1>>)]>>],
           povms |-> [M |-> <<[o |-> <<"0">>, v |-> E1], [o |-> <<"1">>, v |-> Cpl(<<2,0,0,0>>, <<E1>>)]>>,
                      N |-> <<[o |-> <<"x">>, v |-> [k |-> "dimg", t |-> A1, v |-> E1]]>>]]
Model2 == [preps |-> [rho |-> Kr(<<V1, V2>>)],
           ops |-> [a |-> Emb(<<1>>, A1), b |-> Emb(<<2>>, Cmp(<<B1, A1>>)), d |-> Emb(<<2, 1>>, Two)],
           insts |-> [z |-> <<[o |-> "p", t |-> Emb(<<2>>, B1)], [o |-> "q", t |-> Cmp(<<Emb(<<1>>, S1), Emb(<<2>>, A1)>>)]>>],
           povms |-> [M |-> LET F == Cpl(<<2,0,0,0>>, <<E1>>) IN
                              <<[o |-> <<"0","0">>, v |-> Kr(<<E1, V2>>)], [o |-> <<"0","1">>, v |-> Kr(<<E1, F>>)],
                                [o |-> <<"1","0">>, v |-> Kr(<<F, V2>>)], [o |-> <<"1","1">>, v |-> Kr(<<F, F>>)]>>,
                      N |-> <<[o |-> <<"0","1">>, v |-> [k |-> "dimg", t |-> Emb(<<2>>, A1), v |-> Kr(<<E1, V2>>)]]>>]]
Mod == IF Which = 1 THEN Model1 ELSE Model2
Dim == IF Which = 1 THEN 4 ELSE 16
Th == <<1, -1, 2>>
M == TLCEval(RealModel(Mod, Th))
Shift(a, x) == RealModel(Mod, [Th EXCEPT ![a] = @ + x])
Ms == TLCEval([a \in 1..3 |-> TLCEval([x \in {-3, -2, -1, 1, 2, 3} |-> Shift(a, x)])])

Op(x) == [k |-> "op", l |-> <<x>>]
Items == {Op("a"), Op("b"), Op("d"), [k |-> "inst", l |-> <<"z">>], [k |-> "rep", l |-> <<"a", "b">>, n |-> 2]}
Weight(s) == (2 * Len(SelectSeq(s, LAMBDA x : x.k = "rep"))) + Len(s)
Circ(s) == [prep |-> "rho", items |-> s, povm |-> "M", keep |-> <<>>]
Init == c = <<>> /\ done = (Emit /\ PrintT("SCRIPT " \o ToJson(<<>>)))
Next == /\ Len(c) < MaxLen
        /\ \E x \in Items : /\ c' = Append(c, x)
                            /\ (Weight(c') <= 4 \/ Emit)
                            /\ done' = (Emit /\ PrintT("SCRIPT " \o ToJson(c')))
Spec == Init /\ [][Next]_<<c, done>>

P(m, o) == (CHOOSE r \in Probs(m, Circ(c)) : r.i = o.i /\ r.o = o.o).p
D(m, o, a) == (CHOOSE r \in DProbs(m, Circ(c), a) : r.i = o.i /\ r.o = o.o).d

\* all outcomes there, each once
Complete == LET z == Len(SelectSeq(c, LAMBDA x : x.k = "inst")) IN
    Cardinality({<<r.i, r.o>> : r \in Probs(M, Circ(c))}) = (2 ^ z) * (IF Which = 1 THEN 2 ELSE 4)
NoInst == \A k \in 1..Len(c) : c[k].k # "inst"
\* matrices, and effects moved backwards
Pictures == NoInst =>
    LET t == Cmp([i \in 1..Len(c) |-> OpTerm(M, c[i])])
        rho == VecJet(M.preps.rho, 0, 0).v
    IN \A i \in 1..Len(M.povms.M) :
         LET e == VecJet(M.povms.M[i].v, 0, 0)  p == P(M, [i |-> <<>>, o |-> M.povms.M[i].o])
         IN /\ VDot(e.v, MV(OpMx(t, Dim), rho)) = p
            /\ VDot(ActT(t, e, 0, 0).v, rho) = p
\* instruments, POVMs: the sum over outcomes is that of the summed operations and effects
Sums ==
    LET ops == [i \in 1..Len(c) |-> IF c[i].k # "inst" THEN OpMx(OpTerm(M, c[i]), Dim)
                                    ELSE LET x == OpMx(M.insts.z[1].t, Dim)  y == OpMx(M.insts.z[2].t, Dim)
                                         IN [u \in 1..Dim |-> [v \in 1..Dim |-> x[u][v] + y[u][v]]]]
        RECURSIVE run(_)
        run(k) == IF k = 0 THEN VecJet(M.preps.rho, 0, 0).v ELSE MV(ops[k], run(k-1))
        S == {[r |-> r, p |-> r.p] : r \in Probs(M, Circ(c))}
    IN SumSet(S, [x \in S |-> x.p]) = VDot(SumF([i \in 1..Len(M.povms.M) |-> M.povms.M[i].v], 0, 0, Len(M.povms.M)).v, run(Len(c)))
\* polynomials of degree at most 6 in one parameter: exact differences
Small == Weight(c) <= (IF Which = 1 THEN 2 ELSE 1)
Derivatives == Small => \A r \in Probs(M, Circ(c)) : \A a \in 1..3 :
    60 * D(M, r, a) = ((45 * (P(Ms[a][1], r) - P(Ms[a][-1], r))) - (9 * (P(Ms[a][2], r) - P(Ms[a][-2], r)))) + (P(Ms[a][3], r) - P(Ms[a][-3], r))
SecondDerivatives == Small => \A o \in Outcomes(M, Circ(c), 0, 0) : \A a \in 1..3, b \in 1..3 :
    LET h == (CHOOSE r \in HProbs(M, Circ(c), a, b) : r.i = o.i /\ r.o = o.o).h IN
    60 * h = ((45 * (D(Ms[b][1], o, a) - D(Ms[b][-1], o, a))) - (9 * (D(Ms[b][2], o, a) - D(Ms[b][-2], o, a)))) + (D(Ms[b][3], o, a) - D(Ms[b][-3], o, a))
Symmetric == \A a \in 1..3, b \in 1..3 : HProbs(M, Circ(c), a, b) = HProbs(M, Circ(c), b, a)
(* gauge transformations *)
G4 == <<<<1,0,0,0>>, <<1,1,0,0>>, <<0,0,1,2>>, <<0,0,0,1>>>>
G4i == <<<<1,0,0,0>>, <<-1,1,0,0>>, <<0,0,1,-2>>, <<0,0,0,1>>>>
Gg == IF Which = 1 THEN G4 ELSE TLCEval(OpMx(Cmp(<<Emb(<<1>>, Flat(G4)), Emb(<<2>>, Flat(G4))>>), 16))
Ggi == IF Which = 1 THEN G4i ELSE TLCEval(OpMx(Cmp(<<Emb(<<1>>, Flat(G4i)), Emb(<<2>>, Flat(G4i))>>), 16))
MG == TLCEval(Gauge(M, Gg, Ggi))
GaugeFree == Probs(MG, Circ(c)) = Probs(M, Circ(c))
Commute == Which = 2 =>
    LET x == Cmp(<<M.ops.a, M.ops.b>>)  y == Cmp(<<M.ops.b, M.ops.a>>) IN OpMx(x, 16) = OpMx(y, 16)
ASSUME MM(Gg, Ggi) = Ident(Dim)
\* going back restores
ASSUME LET B == Gauge(MG, Ggi, Gg) IN \A x \in {"a", "b", "d"} : OpMx(B.ops[x], Dim) = OpMx(M.ops[x], Dim)
=============================================================================
