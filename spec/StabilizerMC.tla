------------------------------ MODULE StabilizerMC ----------------------------
(* Every stabilizer state on N qubits that Clifford gates reach from |0..0>:   *)
(* the tableau description and quantum mechanics (the exact state vector)      *)
(* agree on every outcome, before and after measuring.                         *)
EXTENDS Clifford, Json
CONSTANTS N, Emit
VARIABLES V, T, path
vars == <<V, T, path>>
UH == [k |-> 1, m |-> << <<0, 0>>, <<0, 4>> >>]
US == [k |-> 0, m |-> << <<0, -1>>, <<-1, 2>> >>]
UXH == [k |-> 1, m |-> << <<0, 6>>, <<6, 0>> >>]                       \* exp(-i pi/4 X)
UCX == [k |-> 0, m |-> << <<0, -1, -1, -1>>, <<-1, 0, -1, -1>>, <<-1, -1, -1, 0>>, <<-1, -1, 0, -1>> >>]
TH == << [x |-> <<0>>, z |-> <<1>>, p |-> 0], [x |-> <<1>>, z |-> <<0>>, p |-> 0] >>
TS == << [x |-> <<1>>, z |-> <<1>>, p |-> 1], [x |-> <<0>>, z |-> <<1>>, p |-> 0] >>
TXH == << [x |-> <<1>>, z |-> <<0>>, p |-> 0], [x |-> <<1>>, z |-> <<1>>, p |-> 3] >>
TCX == << [x |-> <<1, 1>>, z |-> <<0, 0>>, p |-> 0], [x |-> <<0, 1>>, z |-> <<0, 0>>, p |-> 0],
          [x |-> <<0, 0>>, z |-> <<1, 0>>, p |-> 0], [x |-> <<0, 0>>, z |-> <<1, 1>>, p |-> 0] >>
Gates == [H |-> [u |-> UH, t |-> TH, q |-> 1], P |-> [u |-> US, t |-> TS, q |-> 1],
          Q |-> [u |-> UXH, t |-> TXH, q |-> 1], C |-> [u |-> UCX, t |-> TCX, q |-> 2]]
ASSUME \A g \in DOMAIN Gates : Realises(Gates[g].u, Gates[g].t) /\ ValidT(Gates[g].t) /\ UnitaryU(Gates[g].u)
Places(q) == IF q = 1 THEN {<<i>> : i \in 1 .. N} ELSE {<<i, j>> : i \in 1 .. N, j \in 1 .. N} \ {<<i, i>> : i \in 1 .. N}
Init == /\ V = Basis(Zeros(N)) /\ T = Identity(N) /\ path = <<>>
Next == \E g \in DOMAIN Gates : \E qs \in Places(Gates[g].q) :
          /\ V' = ApplyU(V, Gates[g].u, qs)
          /\ T' = Compose(T, EmbedT(Gates[g].t, qs, N))
          /\ path' = Append(path, <<g, qs>>)
Spec == Init /\ [][Next]_vars
View == V
Show == IF Emit THEN PrintT("SCRIPT " \o ToJson([n |-> N, path |-> path])) ELSE TRUE

UnitVector == \* all nonzero amplitudes have one modulus and the squares add to one
  /\ \A i \in 1 .. Len(V.v) : AmpJ(V.v[i]) # -2
  /\ Weight(V, <<>>, <<>>) = <<Pow2(V.k), 0, V.k>>
TableauFixes == \A i \in 1 .. N : Fixes(T[N + i], V)
TableauValid == ValidT(T)
Agree == \A b \in 0 .. Pow2(N) - 1 : StabProb(StabGens(T), Bits(b, N)) = Probs(V)[b + 1]
\* the outcomes of one qubit are certain or even; measuring again repeats the outcome
Measured == \A q \in 1 .. N : \A o \in {0, 1} :
   LET m == ProbM(V, <<q>>, <<o>>) IN
   /\ m \in {-1, 0, 1}
   /\ (m = 1 <=> ProbM(V, <<q>>, <<1 - o>>) = 1) /\ (m = 0 <=> ProbM(V, <<q>>, <<1 - o>>) = -1)
   /\ m >= 0 => /\ ProbM(Collapse(V, <<q>>, <<o>>), <<q>>, <<o>>) = 0
                /\ (m = 0 => Collapse(V, <<q>>, <<o>>) = V)
                /\ \A b \in 0 .. Pow2(N) - 1 :
                     Probs(V)[b + 1] = (IF Bit(b, q, N) = o
                                        THEN IF Probs(Collapse(V, <<q>>, <<o>>))[b + 1] < 0 THEN -1
                                             ELSE m + Probs(Collapse(V, <<q>>, <<o>>))[b + 1]
                                        ELSE Probs(V)[b + 1])
=============================================================================
