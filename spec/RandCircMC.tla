------------------------------- MODULE RandCircMC ------------------------------
(* The mirror and the direct protocol as transition systems on N qubits.  The    *)
(* state keeps the tableau T of the circuit so far and, independently, the       *)
(* state vector V; lays are the layers that remain to be undone.  Pauli layers   *)
(* may be inserted anywhere.  At the end of a mirror circuit, and of a direct    *)
(* circuit (inversion by an operation known only up to Paulis), every qubit has  *)
(* a definite outcome, and Out2 agrees with the state vector in every state.     *)
EXTENDS RandCirc, Json
CONSTANTS N, L, Emit
VARIABLES T, V, lays, stage, sofar
vars == <<T, V, lays, stage, sofar>>
M(m) == [k |-> 0, m |-> m]
UNIT == [H |-> [k |-> 1, m |-> <<<<0, 0>>, <<0, 4>>>>], P |-> M(<<<<0, -1>>, <<-1, 2>>>>), PI |-> M(<<<<0, -1>>, <<-1, 6>>>>), X |-> M(<<<<-1, 0>>, <<0, -1>>>>),
         C |-> M(<<<<0, -1, -1, -1>>, <<-1, 0, -1, -1>>, <<-1, -1, -1, 0>>, <<-1, -1, 0, -1>>>>)]
P1(x, z, p) == [x |-> <<x>>, z |-> <<z>>, p |-> p]
P2(a, b, c, d, p) == [x |-> <<a, b>>, z |-> <<c, d>>, p |-> p]
TAB == [H |-> <<P1(0, 1, 0), P1(1, 0, 0)>>, P |-> <<P1(1, 1, 1), P1(0, 1, 0)>>, PI |-> <<P1(1, 1, 3), P1(0, 1, 0)>>, X |-> <<P1(1, 0, 0), P1(0, 1, 2)>>,
        C |-> <<P2(1, 1, 0, 0, 0), P2(0, 1, 0, 0, 0), P2(0, 0, 1, 0, 0), P2(0, 0, 1, 1, 0)>>]
INVERSE == [H |-> "H", P |-> "PI", PI |-> "P", X |-> "X", C |-> "C"]
ASSUME \A g \in DOMAIN UNIT : ValidT(TAB[g]) /\ Realises(UNIT[g], TAB[g]) /\ IsInverse(TAB[g], TAB[INVERSE[g]])
Ones == {"H", "P", "X"}
\* complete layers, the empty layer, and layers in which a qubit idles
Layers == {<<>>} \cup IF N = 1 THEN {<<[g |-> a, q |-> <<1>>]>> : a \in Ones}
          ELSE {<<[g |-> a, q |-> <<1>>], [g |-> b, q |-> <<2>>]>> : a \in Ones, b \in Ones}
               \cup {<<[g |-> "C", q |-> <<1, 2>>]>>, <<[g |-> "C", q |-> <<2, 1>>]>>, <<[g |-> "H", q |-> <<2>>]>>}
Inv(lay) == [i \in 1 .. Len(lay) |-> [g |-> INVERSE[lay[i].g], q |-> lay[i].q]]
RECURSIVE VThen(_, _)
VThen(v, lay) == IF lay = <<>> THEN v ELSE VThen(ApplyU(v, UNIT[Head(lay).g], Head(lay).q), Tail(lay))
Paulis == {P \in [x : [1 .. N -> {0, 1}], z : [1 .. N -> {0, 1}], p : {0}] : TRUE}
Do(lay) == /\ T' = ThenGates(T, lay, TAB) /\ V' = VThen(V, lay)
DoPauli == \E P \in Paulis : T' = Compose(T, PauliT(P)) /\ V' = ApplyP(V, P)
Init == T = Identity(N) /\ V = Basis(Zeros(N)) /\ lays = <<>> /\ stage = "out" /\ sofar = <<>>
Out == /\ stage = "out" /\ Len(lays) < L
       /\ \E lay \in Layers : Do(lay) /\ lays' = Append(lays, lay) /\ sofar' = Append(sofar, lay)
       /\ UNCHANGED stage
Twirl == stage \in {"out", "back"} /\ ~Emit /\ DoPauli /\ UNCHANGED <<lays, stage, sofar>>
Turn == stage = "out" /\ stage' = "back" /\ UNCHANGED <<T, V, lays, sofar>>
Back == /\ stage = "back" /\ lays # <<>> /\ Do(Inv(lays[Len(lays)]))
        /\ lays' = SubSeq(lays, 1, Len(lays) - 1) /\ UNCHANGED <<stage, sofar>>
\* direct benchmarking: what was done so far is inverted at once, up to a Pauli
Invert == /\ stage = "out" /\ stage' = "done" /\ lays' = <<>>
          /\ \E P \in Paulis : LET W == Compose(InvT(T), PauliT(P)) IN
               /\ T' = Compose(T, W) /\ V' = ApplyP(Basis(Zeros(N)), P)
          /\ UNCHANGED sofar
Next == Out \/ Twirl \/ Turn \/ Back \/ Invert
Spec == Init /\ [][Next]_vars
Ends == stage = "done" \/ (stage = "back" /\ lays = <<>>)
OutcomeOk == \A i \in 1 .. N : LET m == ProbM(V, <<i>>, <<1>>) IN Out2(T, i) = (IF m = -1 THEN 0 ELSE IF m = 0 THEN 2 ELSE 1)
EndOk == Ends => Definite(T) /\ UpToPauli(T, Identity(N))
TypeOk == ValidT(T)
View == <<T, lays, stage>>
EmitOk == (Emit /\ stage = "back") => IF sofar = lays THEN PrintT("SCRIPT " \o ToJson([n |-> N, lays |-> sofar])) ELSE TRUE
=============================================================================
