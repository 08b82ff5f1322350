------------------------------- MODULE CliffordMC ------------------------------
(* The Clifford group on N qubits, as tableaux reached by H, P and CNOT, with   *)
(* the unitary that the same gates make, column by column.                      *)
EXTENDS CliffordAlg, Json
CONSTANTS N, Emit, WithU
VARIABLES T, V, path
vars == <<T, V, path>>
UH == [k |-> 1, m |-> << <<0, 0>>, <<0, 4>> >>]
US == [k |-> 0, m |-> << <<0, -1>>, <<-1, 2>> >>]
UCX == [k |-> 0, m |-> << <<0, -1, -1, -1>>, <<-1, 0, -1, -1>>, <<-1, -1, -1, 0>>, <<-1, -1, 0, -1>> >>]
TH == << [x |-> <<0>>, z |-> <<1>>, p |-> 0], [x |-> <<1>>, z |-> <<0>>, p |-> 0] >>
TS == << [x |-> <<1>>, z |-> <<1>>, p |-> 1], [x |-> <<0>>, z |-> <<1>>, p |-> 0] >>
TCX == << [x |-> <<1, 1>>, z |-> <<0, 0>>, p |-> 0], [x |-> <<0, 1>>, z |-> <<0, 0>>, p |-> 0],
          [x |-> <<0, 0>>, z |-> <<1, 0>>, p |-> 0], [x |-> <<0, 0>>, z |-> <<1, 1>>, p |-> 0] >>
Gates == [H |-> [u |-> UH, t |-> TH, q |-> 1], P |-> [u |-> US, t |-> TS, q |-> 1], CNOT |-> [u |-> UCX, t |-> TCX, q |-> 2]]
UT == [k |-> 0, m |-> << <<0, -1>>, <<-1, 1>> >>]
ASSUME \A g \in DOMAIN Gates : Realises(Gates[g].u, Gates[g].t) /\ IsClifford(Gates[g].u)
ASSUME ~IsClifford(UT)
ASSUME NSymp(1) = 6 /\ NSymp(2) = 720
Places(q) == IF q = 1 THEN {<<i>> : i \in 1 .. N} ELSE {<<i, j>> : i \in 1 .. N, j \in 1 .. N} \ {<<i, i>> : i \in 1 .. N}
Init == T = Identity(N) /\ V = [b \in 1 .. Pow2(N) |-> IF WithU THEN Basis(Bits(b - 1, N)) ELSE Basis(<<0>>)] /\ path = <<>>
Next == \E g \in DOMAIN Gates : \E qs \in Places(Gates[g].q) :
          /\ T' = ThenGate(T, Gates[g].t, qs)
          /\ V' = IF WithU THEN [b \in 1 .. Pow2(N) |-> ApplyU(V[b], Gates[g].u, qs)] ELSE V
          /\ path' = Append(path, <<g, qs>>)
Spec == Init /\ [][Next]_vars
View == T
Show == IF Emit THEN PrintT("SCRIPT " \o ToJson([n |-> N, path |-> path])) ELSE TRUE

Valid == ValidT(T) /\ SympM(MatOf(T), TRUE) /\ FromPairs(ToPairs(MatOf(T))) = MatOf(T) /\ SympM(ToPairs(MatOf(T)), FALSE)
Inverse == IsInverse(T, InvT(T)) /\ ValidT(InvT(T))
\* gates one by one, and composition of whole operations
Steps == \A g \in DOMAIN Gates : \A qs \in Places(Gates[g].q) :
           ThenGate(T, Gates[g].t, qs) = Compose(T, EmbedT(Gates[g].t, qs, N))
\* the unitary carries every generator to its image
Unitary == WithU => \A c \in 1 .. 2 * N : \A b \in 1 .. Pow2(N) :
   LET g == Identity(N)[c]  bs == Bits(b - 1, N)
       to == BitsIndex(XorB(bs, g.x)) + 1
       ph == (4 * DotB(g.z, bs)) % 8
   IN [V[to] EXCEPT !.v = [i \in 1 .. Pow2(N) |-> RotW(V[to].v[i], ph)]] = ApplyP(V[b], T[c])
\* Paulis before and after
Paulis == \A P \in {PX(N, 1), PZ(N, N), MulP(PX(N, 1), PZ(N, N))} :
            LET A == Compose(PauliT(P), T)  B == Compose(T, PauliT(Image(T, P))) IN A = B /\ UpToPauli(A, T)
States == /\ SameState(T, T) /\ MapsToZero(T, InvT(T))
          /\ SameState(T, Compose(EmbedT(TS, <<1>>, N), T)) /\ ~SameState(T, Compose(PauliT(PX(N, 1)), T))
          /\ WithU => \A i \in 1 .. N : Fixes(T[N + i], V[1])
Full == TLCGet("distinct") = Pow2(2 * N) * NSymp(N)
=============================================================================
