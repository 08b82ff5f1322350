------------------------------ MODULE CliffordAlg ------------------------------
(* Algebra of Clifford operations used to judge the symplectic representation   *)
(* and the compilers: inverses, gates applied one by one, equality up to        *)
(* Paulis, stabilizer states, symplectic matrices and matrices over two         *)
(* elements.                                                                    *)
EXTENDS Clifford

(* -------------------------- gates applied in turn ---------------------------- *)
\* the Pauli after the gate with tableau G on the qubits qs
GateOnP(P, G, qs) ==
  LET k == Len(qs)
      loc == Image(G, [x |-> [j \in 1 .. k |-> P.x[qs[j]]], z |-> [j \in 1 .. k |-> P.z[qs[j]]], p |-> 0])
      at(i) == CHOOSE j \in 1 .. k : qs[j] = i
      in(i) == \E j \in 1 .. k : qs[j] = i
  IN [x |-> [i \in 1 .. Len(P.x) |-> IF in(i) THEN loc.x[at(i)] ELSE P.x[i]],
      z |-> [i \in 1 .. Len(P.z) |-> IF in(i) THEN loc.z[at(i)] ELSE P.z[i]],
      p |-> (P.p + loc.p) % 4]
ThenGate(T, G, qs) == [c \in 1 .. Len(T) |-> GateOnP(T[c], G, qs)]
RECURSIVE ThenGates(_, _, _)
\* gs: sequence of [g, q]; lib: the tableaux of the gates
ThenGates(T, gs, lib) == IF gs = <<>> THEN T ELSE ThenGates(ThenGate(T, lib[Head(gs).g], Head(gs).q), Tail(gs), lib)
CircuitT(gs, n, lib) == ThenGates(Identity(n), gs, lib)

(* ------------------------------- inverse ------------------------------------- *)
\* P = product of the images of X^x Z^z: x_i says whether P anticommutes with the image of Z_i
InvP(T, P) ==
  LET n == NQ(T)
      a == [x |-> [i \in 1 .. n |-> IF Commutes(P, T[n + i]) THEN 0 ELSE 1],
            z |-> [i \in 1 .. n |-> IF Commutes(P, T[i]) THEN 0 ELSE 1], p |-> 0]
  IN [a EXCEPT !.p = (P.p - Image(T, a).p) % 4]
InvT(T) == [c \in 1 .. Len(T) |-> InvP(T, Identity(NQ(T))[c])]

(* --------------------------- up to Pauli operators --------------------------- *)
XZ(T) == [c \in 1 .. Len(T) |-> [x |-> T[c].x, z |-> T[c].z]]
UpToPauli(T1, T2) == XZ(T1) = XZ(T2)
\* the state T|0..0> is fixed by the operators that T maps Zs to
\* C|0..0> for the circuit C is that state
ZStab(P) == P.x = Zeros(Len(P.x)) /\ P.p = 0
SameState(T1, T2) == LET n == NQ(T1) IN \A i \in 1 .. n : ZStab(InvP(T1, T2[n + i]))
\* the circuit C maps the state T|0..0> to |0..0>
MapsToZero(T, C) == LET n == NQ(T) IN \A i \in 1 .. n : ZStab(Image(C, T[n + i]))
PrefixPauli(P, T) == Compose(PauliT(P), T)

(* ------------------------------- unitaries ----------------------------------- *)
Hermitians(n) == {P \in [x : [1 .. n -> {0, 1}], z : [1 .. n -> {0, 1}], p : 0 .. 3] : HermitianP(P)}
Carries(U, g, P) ==
  LET n == Len(g.x)  qs == [i \in 1 .. n |-> i] IN
  \A b \in 1 .. Pow2(n) : LET e == Basis(Bits(b - 1, n)) IN ApplyU(ApplyP(e, g), U, qs) = ApplyP(ApplyU(e, U, qs), P)
IsClifford(U) ==
  LET n == Log2(Len(U.m)) IN
  \A c \in 1 .. 2 * n : \E P \in Hermitians(n) : Carries(U, Identity(n)[c], P)

(* -------------------- matrices over two elements ------------------------------ *)
\* rows: sequence of bit sequences
NR(A) == Len(A)
NC(A) == Len(A[1])
Col(A, j) == [i \in 1 .. Len(A) |-> A[i][j]]
MulM(A, B) == [i \in 1 .. NR(A) |-> [j \in 1 .. NC(B) |-> DotB(A[i], Col(B, j)) % 2]]
TransM(A) == [j \in 1 .. NC(A) |-> Col(A, j)]
IdM(n) == [i \in 1 .. n |-> Unit(n, i)]
Minor(A) == [i \in 1 .. Len(A) - 1 |-> A[i]]
\* rank by elimination
RECURSIVE RankM(_)
RankM(A) ==
  IF A = <<>> \/ NC(A) = 0 THEN 0
  ELSE LET piv == {i \in 1 .. NR(A) : A[i][1] = 1}
           rest(r) == [j \in 1 .. Len(r) - 1 |-> r[j + 1]]
       IN IF piv = {} THEN RankM([i \in 1 .. NR(A) |-> rest(A[i])])
          ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                   red(i) == IF A[i][1] = 1 THEN XorB(A[i], A[p]) ELSE A[i]
               IN 1 + RankM([i \in 1 .. NR(A) - 1 |-> rest(red(IF i < p THEN i ELSE i + 1))])
DetM(A) == IF RankM(A) = NR(A) THEN 1 ELSE 0
\* the symplectic form and the two orders of rows and columns
FormM(n, std) == [i \in 1 .. 2 * n |-> [j \in 1 .. 2 * n |->
  IF std THEN (IF j = i + n \/ i = j + n THEN 1 ELSE 0)
  ELSE IF i # j /\ (i - 1) \div 2 = (j - 1) \div 2 THEN 1 ELSE 0]]
SympM(A, std) == LET n == NR(A) \div 2 IN MulM(MulM(A, FormM(n, std)), TransM(A)) = FormM(n, std)
SymmetricM(A) == A = TransM(A)
\* position, in the pairwise order, of the index i of the standard order
PairPos(i, n) == IF i <= n THEN 2 * i - 1 ELSE 2 * (i - n)
ToPairs(A) == LET n == NR(A) \div 2
                  std(k) == CHOOSE i \in 1 .. 2 * n : PairPos(i, n) = k
              IN [r \in 1 .. 2 * n |-> [c \in 1 .. 2 * n |-> A[std(r)][std(c)]]]
FromPairs(A) == LET n == NR(A) \div 2 IN [r \in 1 .. 2 * n |-> [c \in 1 .. 2 * n |-> A[PairPos(r, n)][PairPos(c, n)]]]
\* matrix of a tableau: columns are the images
MatOf(T) == LET n == NQ(T) IN [r \in 1 .. 2 * n |-> [c \in 1 .. 2 * n |-> IF r <= n THEN T[c].x[r] ELSE T[c].z[r - n]]]
RECURSIVE NSymp(_)
NSymp(n) == IF n = 0 THEN 1 ELSE NSymp(n - 1) * Pow2(2 * n - 1) * (Pow2(2 * n) - 1)
=============================================================================
