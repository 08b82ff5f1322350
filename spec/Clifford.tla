------------------------------- MODULE Clifford -------------------------------
(* Pauli operators, Clifford operations (tableaux) and exact state vectors.    *)
(*                                                                             *)
(* A Pauli is [x, z, p]: the operator i^p X^x Z^z, with x, z bit sequences     *)
(* (qubit 1 first).  A Clifford on n qubits is the sequence of the 2n Paulis   *)
(* that it maps X_1..X_n, Z_1..Z_n to.  A state vector is [n, k, v], v being   *)
(* the 2^n amplitudes times sqrt(2)^k, each an element <<a,b,c,d>> of Z[w]     *)
(* (w = e^(i pi/4)), meaning a + b w + c w^2 + d w^3; qubit 1 is the most      *)
(* significant bit.  A unitary whose entries are 0 or w^j / sqrt(2)^k is       *)
(* [k, m], m[row][column] = j or -1.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------- bits -------------------------------------- *)
Pow2(e) == 2 ^ e
Bit(b, i, n) == (b \div Pow2(n - i)) % 2            \* bit of qubit i in the index b (from 0)
Bits(b, n) == [i \in 1 .. n |-> Bit(b, i, n)]
RECURSIVE IndexOf_(_, _)
IndexOf_(bs, acc) == IF bs = <<>> THEN acc ELSE IndexOf_(Tail(bs), 2 * acc + Head(bs))
BitsIndex(bs) == IndexOf_(bs, 0)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
DotB(a, b) == SumSeq([i \in 1 .. Len(a) |-> a[i] * b[i]])
XorB(a, b) == [i \in 1 .. Len(a) |-> (a[i] + b[i]) % 2]
Zeros(n) == [i \in 1 .. n |-> 0]
Unit(n, i) == [j \in 1 .. n |-> IF j = i THEN 1 ELSE 0]

(* ------------------------------- Paulis ------------------------------------ *)
One(n) == [x |-> Zeros(n), z |-> Zeros(n), p |-> 0]
PX(n, i) == [x |-> Unit(n, i), z |-> Zeros(n), p |-> 0]
PZ(n, i) == [x |-> Zeros(n), z |-> Unit(n, i), p |-> 0]
MulP(a, b) == [x |-> XorB(a.x, b.x), z |-> XorB(a.z, b.z), p |-> (a.p + b.p + 2 * DotB(a.z, b.x)) % 4]
Commutes(a, b) == (DotB(a.x, b.z) + DotB(a.z, b.x)) % 2 = 0
HermitianP(a) == (a.p + DotB(a.x, a.z)) % 2 = 0
PauliOk(P, n) == /\ Len(P.x) = n /\ Len(P.z) = n /\ P.p \in 0 .. 3
                 /\ \A i \in 1 .. n : P.x[i] \in {0, 1} /\ P.z[i] \in {0, 1}
RECURSIVE ProdSel(_, _, _)
ProdSel(T, sel, acc) == IF sel = <<>> THEN acc ELSE ProdSel(T, Tail(sel), MulP(acc, T[Head(sel)]))
Sel(bs, off) == [i \in 1 .. Len(SelectSeq([j \in 1 .. Len(bs) |-> j * bs[j]], LAMBDA e : e > 0))
                   |-> off + SelectSeq([j \in 1 .. Len(bs) |-> j * bs[j]], LAMBDA e : e > 0)[i]]

(* ------------------------------ tableaux ----------------------------------- *)
NQ(T) == Len(T) \div 2
Identity(n) == [c \in 1 .. 2 * n |-> IF c <= n THEN PX(n, c) ELSE PZ(n, c - n)]
Image(T, P) == LET n == NQ(T)
                   q == ProdSel(T, Sel(P.x, 0) \o Sel(P.z, n), One(n))
               IN [q EXCEPT !.p = (@ + P.p) % 4]
Compose(T1, T2) == [c \in 1 .. Len(T1) |-> Image(T2, T1[c])]          \* T1 acts first
ValidT(T) ==
  LET n == NQ(T) IN
  /\ Len(T) = 2 * n
  /\ \A c \in 1 .. 2 * n : PauliOk(T[c], n) /\ HermitianP(T[c])
  /\ \A c \in 1 .. 2 * n : \A d \in 1 .. 2 * n : c < d => (Commutes(T[c], T[d]) <=> d # c + n)
Symplectic(T) ==                                                      \* phases left aside
  LET n == NQ(T) IN \A c \in 1 .. 2 * n : \A d \in 1 .. 2 * n : c < d => (Commutes(T[c], T[d]) <=> d # c + n)
IsInverse(T1, T2) == Compose(T1, T2) = Identity(NQ(T1)) /\ Compose(T2, T1) = Identity(NQ(T1))
EmbedP(P, qs, n) ==
  [x |-> [i \in 1 .. n |-> IF \E k \in 1 .. Len(qs) : qs[k] = i THEN P.x[CHOOSE k \in 1 .. Len(qs) : qs[k] = i] ELSE 0],
   z |-> [i \in 1 .. n |-> IF \E k \in 1 .. Len(qs) : qs[k] = i THEN P.z[CHOOSE k \in 1 .. Len(qs) : qs[k] = i] ELSE 0],
   p |-> P.p]
EmbedT(T, qs, n) ==
  LET ne == Len(qs)
      at(i) == CHOOSE k \in 1 .. ne : qs[k] = i
      in(i) == \E k \in 1 .. ne : qs[k] = i
  IN [c \in 1 .. 2 * n |->
        IF c <= n THEN IF in(c) THEN EmbedP(T[at(c)], qs, n) ELSE PX(n, c)
        ELSE IF in(c - n) THEN EmbedP(T[ne + at(c - n)], qs, n) ELSE PZ(n, c - n)]
RECURSIVE KronT(_)
KronT(Ts) ==                                     \* Ts a non-empty sequence of tableaux
  IF Len(Ts) = 1 THEN Ts[1]
  ELSE LET A == Ts[1]  B == KronT(Tail(Ts))
           na == NQ(A)  nb == NQ(B)  n == na + nb
       IN Compose(EmbedT(A, [i \in 1 .. na |-> i], n), EmbedT(B, [i \in 1 .. nb |-> na + i], n))
\* conjugation by the Pauli P
PauliT(P) == LET n == Len(P.x) IN
  [c \in 1 .. 2 * n |-> LET g == Identity(n)[c] IN IF Commutes(P, g) THEN g ELSE [g EXCEPT !.p = 2]]

(* ------------------------------- Z[w] -------------------------------------- *)
ZeroW == <<0, 0, 0, 0>>
OneW == <<1, 0, 0, 0>>
AddW(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
NegW(a) == <<-a[1], -a[2], -a[3], -a[4]>>
RotW1(a) == <<-a[4], a[1], a[2], a[3]>>
RECURSIVE RotW(_, _)
RotW(a, j) == IF j = 0 THEN a ELSE IF j >= 4 THEN NegW(RotW(a, j - 4)) ELSE RotW1(RotW(a, j - 1))
PhaseW == [j \in 0 .. 7 |-> RotW(OneW, j)]
RootTwoTimes(a) == AddW(RotW1(a), NegW(RotW(a, 3)))
HalfableW(a) == \A i \in 1 .. 4 : RootTwoTimes(a)[i] % 2 = 0
OverRootTwo(a) == LET y == RootTwoTimes(a) IN <<y[1] \div 2, y[2] \div 2, y[3] \div 2, y[4] \div 2>>
RECURSIVE SumW(_)
SumW(s) == IF s = <<>> THEN ZeroW ELSE AddW(Head(s), SumW(Tail(s)))
\* squared modulus: <<r, s>> meaning r + s sqrt(2)
NormW(a) == <<a[1] * a[1] + a[2] * a[2] + a[3] * a[3] + a[4] * a[4],
              a[1] * a[2] + a[2] * a[3] + a[3] * a[4] - a[4] * a[1]>>

(* ---------------------------- state vectors -------------------------------- *)
RECURSIVE Norm(_)
Norm(V) == IF /\ \E i \in 1 .. Len(V.v) : V.v[i] # ZeroW
              /\ \A i \in 1 .. Len(V.v) : HalfableW(V.v[i])
           THEN Norm([V EXCEPT !.k = @ - 1, !.v = [i \in 1 .. Len(V.v) |-> OverRootTwo(V.v[i])]])
           ELSE V
Basis(bs) == [n |-> Len(bs), k |-> 0,
              v |-> [i \in 1 .. Pow2(Len(bs)) |-> IF i - 1 = BitsIndex(bs) THEN OneW ELSE ZeroW]]
\* index (from 0) with the bits of qubits qs replaced by those of a
Put(b, n, qs, a) == BitsIndex([i \in 1 .. n |-> IF \E k \in 1 .. Len(qs) : qs[k] = i
                                               THEN Bit(a, CHOOSE k \in 1 .. Len(qs) : qs[k] = i, Len(qs))
                                               ELSE Bit(b, i, n)])
Get(b, n, qs) == BitsIndex([k \in 1 .. Len(qs) |-> Bit(b, qs[k], n)])
ApplyU(V, U, qs) ==
  LET n == V.n  q == Len(qs)
      amp(b) == LET r == Get(b, n, qs)
                IN SumW([a \in 1 .. Pow2(q) |->
                          LET e == U.m[r + 1][a] IN
                          IF e < 0 THEN ZeroW ELSE RotW(V.v[Put(b, n, qs, a - 1) + 1], e)])
  IN Norm([n |-> n, k |-> V.k + U.k, v |-> [i \in 1 .. Pow2(n) |-> amp(i - 1)]])
ConjU(U) == [k |-> U.k, m |-> [r \in 1 .. Len(U.m) |-> [c \in 1 .. Len(U.m) |->
               LET e == U.m[c][r] IN IF e < 0 THEN -1 ELSE (8 - e) % 8]]]
ApplyP(V, P) ==                                        \* i^p X^x Z^z |V>
  LET n == V.n IN
  [V EXCEPT !.v = [i \in 1 .. Pow2(n) |->
     LET b == Bits(i - 1, n)  src == XorB(b, P.x)
     IN RotW(V.v[BitsIndex(src) + 1], (2 * P.p + 4 * DotB(P.z, src)) % 8)]]
Fixes(P, V) == ApplyP(V, P).v = V.v
KronV(A, B) ==
  LET n == A.n + B.n IN
  \* the factors' amplitudes are multiplied as elements of Z[w]
  LET mulW(a, b) == SumW([j \in 1 .. 4 |-> LET s == [i \in 1 .. 4 |-> a[i] * b[j]] IN RotW(<<s[1], s[2], s[3], s[4]>>, j - 1)])
  IN Norm([n |-> n, k |-> A.k + B.k,
           v |-> [i \in 1 .. Pow2(n) |-> mulW(A.v[((i - 1) \div Pow2(B.n)) + 1], B.v[((i - 1) % Pow2(B.n)) + 1])]])
\* probability that the qubits qs give the bits out: <<r, s, k>> meaning (r + s sqrt2) / 2^k
Weight(V, qs, out) ==
  LET n == V.n
      idx == SelectSeq([i \in 1 .. Pow2(n) |-> i], LAMBDA i : \A k \in 1 .. Len(qs) : Bit(i - 1, qs[k], n) = out[k])
      ns == [j \in 1 .. Len(idx) |-> NormW(V.v[idx[j]])]
  IN <<SumSeq([j \in 1 .. Len(idx) |-> ns[j][1]]), SumSeq([j \in 1 .. Len(idx) |-> ns[j][2]]), V.k>>
\* probability in the form -1 (zero) or m (2^-m); "odd" weights give -2
RECURSIVE Log2(_)
Log2(r) == IF r = 1 THEN 0 ELSE IF r % 2 = 1 THEN -1000 ELSE 1 + Log2(r \div 2)
ProbM(V, qs, out) == LET w == Weight(V, qs, out) IN
  IF w[1] = 0 THEN -1 ELSE IF w[2] # 0 \/ Log2(w[1]) < 0 THEN -2 ELSE w[3] - Log2(w[1])
Collapse(V, qs, out) ==                                \* after the outcome (probability 2^-m)
  LET m == ProbM(V, qs, out) IN
  Norm([n |-> V.n, k |-> V.k - m,
        v |-> [i \in 1 .. Pow2(V.n) |->
           IF \A k \in 1 .. Len(qs) : Bit(i - 1, qs[k], V.n) = out[k] THEN V.v[i] ELSE ZeroW]])
\* amplitudes of a state all of whose nonzero amplitudes have the same modulus: k and exponents
AmpJ(a) == IF a = ZeroW THEN -1 ELSE IF \E j \in 0 .. 7 : PhaseW[j] = a THEN CHOOSE j \in 0 .. 7 : PhaseW[j] = a ELSE -2
Amps(V) == [i \in 1 .. Len(V.v) |-> AmpJ(V.v[i])]
AllBits(n) == [i \in 1 .. Pow2(n) |-> Bits(i - 1, n)]
Probs(V) == [i \in 1 .. Pow2(V.n) |-> ProbM(V, [q \in 1 .. V.n |-> q], Bits(i - 1, V.n))]

(* -------- a unitary and a tableau describe the same operation --------------- *)
\* U g = T(g) U on every basis state, for every generator g
Realises(U, T) ==
  LET n == NQ(T)  qs == [i \in 1 .. n |-> i]  G == Identity(n) IN
  \A c \in 1 .. 2 * n : \A b \in 1 .. Pow2(n) :
     LET e == Basis(Bits(b - 1, n)) IN ApplyU(ApplyP(e, G[c]), U, qs) = ApplyP(ApplyU(e, U, qs), T[c])
UnitaryU(U) == LET n == Log2(Len(U.m))  qs == [i \in 1 .. n |-> i] IN
  \A b \in 1 .. Pow2(n) : LET e == Basis(Bits(b - 1, n)) IN ApplyU(ApplyU(e, U, qs), ConjU(U), qs) = e

(* --------------- stabilizer description of the state T|0..0> ---------------- *)
StabGens(T) == [i \in 1 .. NQ(T) |-> T[NQ(T) + i]]
\* the products of the generators
GroupEl(gs, sel) == ProdSel(gs, Sel(sel, 0), One(Len(gs)))
\* probability of the bits out according to the stabilizer group alone:
\* 2^-n times the sum of (+-1) over the group elements made of Zs only
StabProb(gs, out) ==
  LET n == Len(gs)
      zs == {sel \in [1 .. n -> {0, 1}] : GroupEl(gs, sel).x = Zeros(n)}
      sgn(sel) == LET g == GroupEl(gs, sel) IN IF (g.p \div 2 + DotB(g.z, out)) % 2 = 0 THEN 1 ELSE -1
      tot == SumSeq([i \in 1 .. Pow2(n) |-> IF Bits(i - 1, n) \in zs THEN sgn(Bits(i - 1, n)) ELSE 0])
  IN IF tot = 0 THEN -1 ELSE n - Log2(tot)
=============================================================================
