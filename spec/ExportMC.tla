------------------------------ MODULE ExportMC ------------------------------
(* Every small circuit with every option: the reference translation does     *)
(* what the circuit demands, whatever legal order its statements are put in. *)
EXTENDS Export, Json
CONSTANTS N, L, Emit
Names == {"I", "A"}
G(n, q, a, m) == [n |-> n, q |-> q, all |-> a, im |-> m]
Ones == {G("A", <<x>>, FALSE, FALSE) : x \in 0..(N - 1)} \cup {G("M", <<x>>, FALSE, TRUE) : x \in 0..(N - 1)} \cup {G("I", <<x>>, FALSE, FALSE) : x \in {0}}
Twos == {G("C", <<x, y>>, FALSE, FALSE) : x \in 0..(N - 1), y \in 0..(N - 1)} \ {G("C", <<x, x>>, FALSE, FALSE) : x \in 0..(N - 1)}
Alls == {G("I", <<>>, TRUE, FALSE), G("A", <<>>, TRUE, FALSE)}
Layers == {<<>>} \cup {<<g>> : g \in Ones \cup Twos \cup Alls} \cup {<<g, h>> : g \in Ones \cup Twos, h \in Ones} 
Ok(y) == Len(y) < 2 \/ Rg(y[1].q) \cap Rg(y[2].q) = {}
Orders == {s \in [1..N -> 0..(N - 1)] : Cardinality({s[i] : i \in 1..N}) = N}
VARIABLES c, o, prog
Opt(b, a, m, cc) == [idle |-> "I", between |-> b, around |-> a, bit |-> [x \in Rg(cc.lines) |-> m + x]]
Init == /\ \E ls \in Orders : c = [lines |-> ls, layers |-> <<>>]
        /\ \E b, a \in BOOLEAN : o = [idle |-> "I", between |-> b, around |-> a, bit |-> [x \in 0..(N - 1) |-> x]]
        /\ prog = <<>>
Grow == /\ prog = <<>> /\ Len(c.layers) < L
        /\ \E y \in {y \in Layers : Ok(y)} : c' = [c EXCEPT !.layers = Append(@, y)]
        /\ o' = [o EXCEPT !.bit = [x \in 0..(N - 1) |-> NumIMs(c'.layers) + x]] /\ UNCHANGED prog
Make == /\ prog = <<>> /\ prog' = Compile(c, o) /\ UNCHANGED <<c, o>>
        /\ IF ~Emit THEN TRUE ELSE PrintT("SCRIPT " \o ToJson([lines |-> c.lines, layers |-> c.layers, between |-> o.between, around |-> o.around]))
(* statements on different qubits may change places *)
Touch(s, t) == (s.k = "sync" /\ s.q = <<>>) \/ (t.k = "sync" /\ t.q = <<>>) \/ Rg(s.q) \cap Rg(t.q) # {}
Swap == /\ ~Emit /\ prog # <<>> /\ \E i \in 1..(Len(prog) - 1) : ~Touch(prog[i], prog[i + 1])
             /\ prog' = [prog EXCEPT ![i] = prog[i + 1], ![i + 1] = prog[i]] /\ UNCHANGED <<c, o>>
Next == Grow \/ Make \/ Swap
Spec == Init /\ [][Next]_<<c, o, prog>>
P(p) == [prog |-> p, nq |-> N, nb |-> N + NumIMs(c.layers)]
Good == prog = <<>> \/ Judge(c, o, P(prog)) = ""
(* dropping any gate or measurement, or exchanging statements that meet, is noticed *)
Drop(i) == SubSeq(prog, 1, i - 1) \o SubSeq(prog, i + 1, Len(prog))
Noticed == prog = <<>> \/ \A i \in 1..Len(prog) : prog[i].k # "sync" => Judge(c, o, P(Drop(i))) # ""
Order == prog = <<>> \/ \A i \in 1..(Len(prog) - 1) :
   (Touch(prog[i], prog[i + 1]) /\ prog[i] # prog[i + 1] /\ (prog[i].k = "sync" => prog[i + 1].k # "sync" /\ ~o.around) /\ (prog[i + 1].k = "sync" => ~o.around))
   => Judge(c, o, P([prog EXCEPT ![i] = prog[i + 1], ![i + 1] = prog[i]])) # ""
(* the rotation table is a group of rotations: inverse = transpose, u3 relations *)
Rots == /\ \A ax \in {"x", "y", "z"} : \A j, k \in 0..3 : Mul(Rot(ax, 2 * j), Rot(ax, 2 * k)) = Rot(ax, (2 * (j + k)) % 8)
        /\ \A ax \in {"x", "y", "z"} : \A k \in 0..7 : Tr(Rot(ax, k)) = Rot(ax, (8 - k) % 8)
        /\ \A a, b, d \in 0..3 : Mul(U3(2 * a, 2 * b, 2 * d), U3((8 - (2 * a)) % 8, (8 - (2 * d)) % 8, (8 - (2 * b)) % 8)) = One3
        /\ Mul(Had, Had) = One3 /\ Mul(Had, Mul(Rot("z", 2), Had)) = Rot("x", 2)
        /\ U3(2, 6, 2) = Rot("x", 2) /\ U3(2, 0, 0) = Rot("y", 2)
ASSUME Rots
=============================================================================
