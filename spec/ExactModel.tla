------------------------------ MODULE ExactModel ------------------------------
(* What a model predicts, and how its predictions change with its parameters.   *)
(* Operations, preparations and effects are integer-valued terms built from     *)
(* leaves whose entries are affine in the parameter vector:                     *)
(*   operations  mx: matrix | comp: factors, the first acts first | emb: acting *)
(*               on the lines `on` | exp: power                                 *)
(*   vectors     vec: vector | kron: one factor per line | compl: identity      *)
(*               minus others | img: an operation acting on a vector |          *)
(*               dimg: the transposed operation acting on an effect             *)
(* A leaf holds its values at the zero vector (m0) and one entry per            *)
(* (parameter a, row i, column j, coefficient c).  Everything is evaluated on   *)
(* jets: a value together with its derivatives along two parameters and the     *)
(* mixed second derivative.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumSet(_,_), Dot(_,_,_), Pow4(_), FlattenS(_)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
Dot(r, x, k) == IF k = 0 THEN 0 ELSE IF r[k] = 0 THEN Dot(r, x, k-1) ELSE r[k] * x[k] + Dot(r, x, k-1)
Pow4(n) == IF n = 0 THEN 1 ELSE 4 * Pow4(n-1)
FlattenS(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlattenS(Tail(s))

Zero(n) == TLCEval([i \in 1..n |-> 0])
Add(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
Sub(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] - y[i]])
MV(m, x) == TLCEval([i \in 1..Len(m) |-> Dot(m[i], x, Len(x))])
RECURSIVE DotC(_,_,_,_)
DotC(m, x, j, k) == IF k = 0 THEN 0 ELSE IF x[k] = 0 THEN DotC(m, x, j, k-1) ELSE x[k] * m[k][j] + DotC(m, x, j, k-1)
VM(m, x) == TLCEval([j \in 1..Len(m[1]) |-> DotC(m, x, j, Len(m))])
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0

(***************** terms at a parameter vector *****************)
RECURSIVE SumP(_,_,_)
SumP(p, th, k) == IF k = 0 THEN 0 ELSE p[k].c * th[p[k].a] + SumP(p, th, k-1)

LeafMx(t, th) == TLCEval([i \in 1..Len(t.m0) |->
    LET r == TLCEval(SelectSeq(t.p, LAMBDA e : e.i = i)) IN
    IF r = <<>> THEN t.m0[i] ELSE
    TLCEval([j \in 1..Len(t.m0[i]) |-> LET q == SelectSeq(r, LAMBDA e : e.j = j) IN t.m0[i][j] + SumP(q, th, Len(q))])])
LeafVec(t, th) == TLCEval([i \in 1..Len(t.m0) |->
    LET q == SelectSeq(t.p, LAMBDA e : e.i = i) IN t.m0[i] + SumP(q, th, Len(q))])

RECURSIVE RealOp(_,_), RealVec(_,_)
RealOp(t, th) ==
    CASE t.k = "mx"   -> [k |-> "mx", m0 |-> t.m0, p |-> t.p, m |-> LeafMx(t, th)]
      [] t.k = "comp" -> [k |-> "comp", f |-> TLCEval([i \in 1..Len(t.f) |-> RealOp(t.f[i], th)])]
      [] t.k = "emb"  -> [k |-> "emb", on |-> t.on, n |-> t.n, t |-> RealOp(t.t, th)]
      [] t.k = "exp"  -> [k |-> "exp", n |-> t.n, t |-> RealOp(t.t, th)]
RealVec(t, th) ==
    CASE t.k = "vec"   -> [k |-> "vec", m0 |-> t.m0, p |-> t.p, v |-> LeafVec(t, th)]
      [] t.k = "kron"  -> [k |-> "kron", f |-> TLCEval([i \in 1..Len(t.f) |-> RealVec(t.f[i], th)])]
      [] t.k = "compl" -> [k |-> "compl", id |-> t.id, f |-> TLCEval([i \in 1..Len(t.f) |-> RealVec(t.f[i], th)])]
      [] t.k \in {"img", "dimg"} -> [k |-> t.k, t |-> RealOp(t.t, th), v |-> RealVec(t.v, th)]

(***************** jets *****************)
Jet(v) == LET z == Zero(Len(v)) IN [v |-> v, a |-> z, b |-> z, ab |-> z]
JAdd(x, y) == [v |-> Add(x.v, y.v), a |-> Add(x.a, y.a), b |-> Add(x.b, y.b), ab |-> Add(x.ab, y.ab)]
JSub(x, y) == [v |-> Sub(x.v, y.v), a |-> Sub(x.a, y.a), b |-> Sub(x.b, y.b), ab |-> Sub(x.ab, y.ab)]

\* derivative of a matrix leaf along parameter d, applied to x
DMV(t, d, x) == LET q == SelectSeq(t.p, LAMBDA e : e.a = d) IN
    IF d = 0 \/ q = <<>> THEN Zero(Len(t.m))
    ELSE TLCEval([i \in 1..Len(t.m) |-> SumSet({k \in 1..Len(q) : q[k].i = i}, [k \in 1..Len(q) |-> q[k].c * x[q[k].j]])])
DVM(t, d, x) == LET q == SelectSeq(t.p, LAMBDA e : e.a = d) IN
    IF d = 0 \/ q = <<>> THEN Zero(Len(t.m[1]))
    ELSE TLCEval([j \in 1..Len(t.m[1]) |-> SumSet({k \in 1..Len(q) : q[k].j = j}, [k \in 1..Len(q) |-> q[k].c * x[q[k].i]])])
DVec(t, d) == LET q == SelectSeq(t.p, LAMBDA e : e.a = d) IN
    TLCEval([i \in 1..Len(t.v) |-> IF d = 0 THEN 0 ELSE SumSet({k \in 1..Len(q) : q[k].i = i}, [k \in 1..Len(q) |-> q[k].c])])

VMz(m, x) == IF IsZero(x) THEN Zero(Len(m[1])) ELSE VM(m, x)
MVz(m, x) == IF IsZero(x) THEN Zero(Len(m)) ELSE MV(m, x)

Digit(x, n, l) == ((x - 1) \div Pow4(n - l)) % 4
\* the index whose digit on line on[k] is the k-th digit of s (1..4^m), the rest as in x
RECURSIVE PutDigits(_,_,_,_,_)
PutDigits(x, n, on, s, k) ==
    IF k = 0 THEN x
    ELSE LET l == on[k] IN
         PutDigits((x + ((Digit(s, Len(on), k) - Digit(x, n, l)) * Pow4(n - l))), n, on, s, k-1)
RECURSIVE SubIdx(_,_,_,_)
SubIdx(x, n, on, k) == IF k = 0 THEN 1 ELSE (Digit(x, n, on[k]) * Pow4(Len(on) - k)) + SubIdx(x, n, on, k-1)
Base(x, n, on) == PutDigits(x, n, on, 1, Len(on))

RECURSIVE Act(_,_,_,_), ActF(_,_,_,_,_), ActT(_,_,_,_), ActTF(_,_,_,_,_)
ActF(f, j, a, b, k) == IF k > Len(f) THEN j ELSE ActF(f, Act(f[k], j, a, b), a, b, k+1)
Embed(t, j, F(_)) ==
    LET N == Len(j.v)
        m == Pow4(Len(t.on))
        base == TLCEval([x \in 1..N |-> Base(x, t.n, t.on)])
        bases == {x \in 1..N : base[x] = x}
        sub(y, bs) == IF IsZero(y) THEN Zero(m) ELSE TLCEval([s \in 1..m |-> y[PutDigits(bs, t.n, t.on, s, Len(t.on))]])
        r == TLCEval([bs \in bases |-> F([v |-> sub(j.v, bs), a |-> sub(j.a, bs), b |-> sub(j.b, bs), ab |-> sub(j.ab, bs)])])
        at == TLCEval([x \in 1..N |-> SubIdx(x, t.n, t.on, Len(t.on))])
    IN [v |-> TLCEval([x \in 1..N |-> r[base[x]].v[at[x]]]), a |-> TLCEval([x \in 1..N |-> r[base[x]].a[at[x]]]),
        b |-> TLCEval([x \in 1..N |-> r[base[x]].b[at[x]]]), ab |-> TLCEval([x \in 1..N |-> r[base[x]].ab[at[x]]])]
Act(t, j, a, b) ==
    (CASE t.k = "mx" ->
           [v |-> MV(t.m, j.v),
            a |-> Add(MVz(t.m, j.a), DMV(t, a, j.v)),
            b |-> Add(MVz(t.m, j.b), DMV(t, b, j.v)),
            ab |-> Add(MVz(t.m, j.ab), Add(DMV(t, a, j.b), DMV(t, b, j.a)))]
      [] t.k = "comp" -> ActF(t.f, j, a, b, 1)
      [] t.k = "exp"  -> ActF([i \in 1..t.n |-> t.t], j, a, b, 1)
      [] t.k = "emb"  -> LET F(y) == Act(t.t, y, a, b) IN Embed(t, j, F))
\* the transposed action, on effects
ActTF(f, j, a, b, k) == IF k = 0 THEN j ELSE ActTF(f, ActT(f[k], j, a, b), a, b, k-1)
ActT(t, j, a, b) ==
    (CASE t.k = "mx" ->
           [v |-> VM(t.m, j.v),
            a |-> Add(VMz(t.m, j.a), DVM(t, a, j.v)),
            b |-> Add(VMz(t.m, j.b), DVM(t, b, j.v)),
            ab |-> Add(VMz(t.m, j.ab), Add(DVM(t, a, j.b), DVM(t, b, j.a)))]
      [] t.k = "comp" -> ActTF(t.f, j, a, b, Len(t.f))
      [] t.k = "exp"  -> ActTF([i \in 1..t.n |-> t.t], j, a, b, t.n)
      [] t.k = "emb"  -> LET F(y) == ActT(t.t, y, a, b) IN Embed(t, j, F))

Kron2(x, y) == TLCEval([i \in 1..(Len(x) * Len(y)) |-> x[((i-1) \div Len(y)) + 1] * y[((i-1) % Len(y)) + 1]])
JKron(x, y) == [v |-> Kron2(x.v, y.v), a |-> Add(Kron2(x.a, y.v), Kron2(x.v, y.a)),
                b |-> Add(Kron2(x.b, y.v), Kron2(x.v, y.b)),
                ab |-> Add(Add(Kron2(x.ab, y.v), Kron2(x.v, y.ab)), Add(Kron2(x.a, y.b), Kron2(x.b, y.a)))]

RECURSIVE VecJet(_,_,_), KronF(_,_,_,_), SumF(_,_,_,_)
KronF(f, a, b, k) == IF k = 1 THEN VecJet(f[1], a, b) ELSE JKron(KronF(f, a, b, k-1), VecJet(f[k], a, b))
SumF(f, a, b, k) == IF k = 1 THEN VecJet(f[1], a, b) ELSE JAdd(SumF(f, a, b, k-1), VecJet(f[k], a, b))
VecJet(t, a, b) ==
    (CASE t.k = "vec"   -> [v |-> t.v, a |-> DVec(t, a), b |-> DVec(t, b), ab |-> Zero(Len(t.v))]
      [] t.k = "kron"  -> KronF(t.f, a, b, Len(t.f))
      [] t.k = "compl" -> IF t.f = <<>> THEN Jet(t.id) ELSE JSub(Jet(t.id), SumF(t.f, a, b, Len(t.f)))
      [] t.k = "img"   -> Act(t.t, VecJet(t.v, a, b), a, b)
      [] t.k = "dimg"  -> ActT(t.t, VecJet(t.v, a, b), a, b))

VDot(x, y) == Dot(x, y, Len(x))
JDot(x, y) == [v |-> VDot(x.v, y.v), a |-> VDot(x.a, y.v) + VDot(x.v, y.a), b |-> VDot(x.b, y.v) + VDot(x.v, y.b),
               ab |-> (VDot(x.ab, y.v) + VDot(x.v, y.ab)) + (VDot(x.a, y.b) + VDot(x.b, y.a))]

Unit(N, j) == TLCEval([i \in 1..N |-> IF i = j THEN 1 ELSE 0])
OpMx(t, N) == \* the matrix of a term on N-dimensional vectors
    LET cols == TLCEval([j \in 1..N |-> Act(t, Jet(Unit(N, j)), 0, 0).v])
    IN TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> cols[j][i]])])
OpJetCols(t, N, a, b) == TLCEval([j \in 1..N |-> Act(t, Jet(Unit(N, j)), a, b)])

(***************** circuits *****************)
\* model: [preps, ops, insts: name -> <<[o, t]>>, povms: name -> <<[o, v]>>]
\* circuit: [prep, items: <<op layer | instrument>>, povm, keep: lines measured (<<>>: all)]
OpTerm(m, it) == IF it.k = "op" THEN IF Len(it.l) = 1 THEN m.ops[it.l[1]] ELSE [k |-> "comp", f |-> [i \in 1..Len(it.l) |-> m.ops[it.l[i]]]]
                 ELSE [k |-> "exp", n |-> it.n, t |-> [k |-> "comp", f |-> [i \in 1..Len(it.l) |-> m.ops[it.l[i]]]]]

RECURSIVE Branches(_,_,_,_,_,_,_)
Branches(m, items, j, o, a, b, k) ==
    IF k > Len(items) THEN << [o |-> o, j |-> j] >>
    ELSE IF items[k].k # "inst" THEN Branches(m, items, Act(OpTerm(m, items[k]), j, a, b), o, a, b, k+1)
    ELSE LET is == m.insts[items[k].l[1]] IN
         FlattenS([x \in 1..Len(is) |-> Branches(m, items, Act(is[x].t, j, a, b), Append(o, is[x].o), a, b, k+1)])

PickChars(s, keep) == [i \in 1..Len(keep) |-> s[keep[i]]]
\* effects: outcome (a sequence of one symbol per line) -> jet; grouped by the measured lines
EffectsOf(m, c, a, b) ==
    LET es == m.povms[c.povm] IN
    IF c.keep = <<>> THEN [i \in 1..Len(es) |-> [o |-> es[i].o, j |-> VecJet(es[i].v, a, b)]]
    ELSE LET names == {PickChars(es[i].o, c.keep) : i \in 1..Len(es)}
             RECURSIVE tot(_,_)
             tot(nm, i) == LET rest == IF i = 1 THEN Jet(Zero(Len(VecJet(es[1].v, 0, 0).v))) ELSE tot(nm, i-1)
                           IN IF PickChars(es[i].o, c.keep) = nm THEN JAdd(rest, VecJet(es[i].v, a, b)) ELSE rest
             RECURSIVE list(_)
             list(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<[o |-> x, j |-> tot(x, Len(es))]>> \o list(S \ {x})
         IN list(names)

\* outcome: instrument outcomes, then the POVM outcome; each jet
Outcomes(m, c, a, b) ==
    LET br == TLCEval(Branches(m, c.items, VecJet(m.preps[c.prep], a, b), <<>>, a, b, 1))
        es == TLCEval(EffectsOf(m, c, a, b))
    IN {[i |-> br[x].o, o |-> es[y].o, j |-> JDot(es[y].j, br[x].j)] : x \in 1..Len(br), y \in 1..Len(es)}

Probs(m, c) == {[i |-> r.i, o |-> r.o, p |-> r.j.v] : r \in Outcomes(m, c, 0, 0)}
DProbs(m, c, a) == {[i |-> r.i, o |-> r.o, d |-> r.j.a] : r \in Outcomes(m, c, a, 0)}
HProbs(m, c, a, b) == {[i |-> r.i, o |-> r.o, h |-> r.j.ab] : r \in Outcomes(m, c, a, b)}
CircMx(m, c, N) == OpMx([k |-> "comp", f |-> [i \in 1..Len(c.items) |-> OpTerm(m, c.items[i])]], N)

RealModel(m, th) ==
    [preps |-> TLCEval([x \in DOMAIN m.preps |-> RealVec(m.preps[x], th)]),
     ops   |-> TLCEval([x \in DOMAIN m.ops |-> RealOp(m.ops[x], th)]),
     insts |-> TLCEval([x \in DOMAIN m.insts |-> TLCEval([i \in 1..Len(m.insts[x]) |-> [o |-> m.insts[x][i].o, t |-> RealOp(m.insts[x][i].t, th)]])]),
     povms |-> TLCEval([x \in DOMAIN m.povms |-> TLCEval([i \in 1..Len(m.povms[x]) |-> [o |-> m.povms[x][i].o, v |-> RealVec(m.povms[x][i].v, th)]])])]
(* ------------------------------ gauge ------------------------------ *)
MM(x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(y[1]) |-> SumSet(1..Len(y), [k \in 1..Len(y) |-> x[i][k] * y[k][j]])]]
Flat(m) == [k |-> "mx", m0 |-> m, p |-> <<>>, m |-> m]
FlatV(v) == [k |-> "vec", m0 |-> v, p |-> <<>>, v |-> v]
Val(t) == VecJet(t, 0, 0).v
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Gauge(r, S, Si) ==
    LET N == Len(S)
        G(t) == Flat(TLCEval(MM(Si, MM(OpMx(t, N), S))))
    IN [preps |-> [x \in DOMAIN r.preps |-> FlatV(TLCEval(MV(Si, Val(r.preps[x]))))],
        ops |-> [x \in DOMAIN r.ops |-> G(r.ops[x])],
        insts |-> [x \in DOMAIN r.insts |-> [i \in 1..Len(r.insts[x]) |-> [o |-> r.insts[x][i].o, t |-> G(r.insts[x][i].t)]]],
        povms |-> [x \in DOMAIN r.povms |-> [i \in 1..Len(r.povms[x]) |-> [o |-> r.povms[x][i].o, v |-> FlatV(TLCEval(VM(S, Val(r.povms[x][i].v))))]]]]

=============================================================================
