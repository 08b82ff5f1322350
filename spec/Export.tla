------------------------------- MODULE Export -------------------------------
(* Conversion of circuits to OpenQASM and Quil: the programs as sequences of *)
(* statements run by a small machine that keeps, per qubit, the word of the  *)
(* gates done on it, and what the circuit demands of these words.            *)
(* A circuit: [lines: list of qubit numbers in order (after the qubit map),  *)
(* layers: list of lists of gates [n: name in the program, q: its qubits,    *)
(* all: on every line one by one, im: an intermediate measurement]].         *)
(* A statement: [k: "gate", n, q] / [k: "sync", q: <<>> is every qubit] /    *)
(* [k: "measure", q: <<qubit>>, b: bit].                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in 1..Len(s)}
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* ---- the machine: words of events per qubit ---- *)
Ev(k, n, q, b) == [k |-> k, n |-> n, q |-> q, b |-> b]
Do(qs, w, st) ==
  CASE st.k = "gate" -> [x \in qs |-> IF x \in Rg(st.q) THEN Append(w[x], Ev("gate", st.n, st.q, -1)) ELSE w[x]]
    [] st.k = "sync" -> [x \in qs |-> IF st.q = <<>> \/ x \in Rg(st.q) THEN Append(w[x], Ev("sync", "", <<>>, -1)) ELSE w[x]]
    [] st.k = "measure" -> [x \in qs |-> IF x \in Rg(st.q) THEN Append(w[x], Ev("measure", "", <<>>, st.b)) ELSE w[x]]
Run(qs, prog) == FoldLeft(LAMBDA w, st : Do(qs, w, st), [x \in qs |-> <<>>], prog)
(* one barrier is as good as several in a row *)
RECURSIVE Once(_)
Once(w) == IF Len(w) < 2 THEN w ELSE IF w[1].k = "sync" /\ w[2].k = "sync" THEN Once(Tail(w)) ELSE <<w[1]>> \o Once(Tail(w))
(* ---- what the circuit demands ---- *)
GateOn(layer, x) == {i \in 1..Len(layer) : layer[i].all \/ x \in Rg(layer[i].q)}
(* which bit the intermediate measurement at (layer l, position i) is read to: they are numbered in the order of the circuit *)
IMsIn(layer) == Cardinality({i \in 1..Len(layer) : layer[i].im})
BitOf(layers, l, i) == FoldLeft(LAMBDA s, y : s + IMsIn(y), 0, SubSeq(layers, 1, l - 1)) + IMsIn(SubSeq(layers[l], 1, i - 1))
NumIMs(layers) == FoldLeft(LAMBDA s, y : s + IMsIn(y), 0, layers)
Sync == <<Ev("sync", "", <<>>, -1)>>
(* o: [idle: name of the idle, between: barriers between layers, around: barriers around a global idle, bit: qubit -> final bit] *)
OnLayer(c, o, l, x) == LET y == c.layers[l] s == GateOn(y, x) IN
  (IF s = {} THEN <<Ev("gate", o.idle, <<x>>, -1)>>
   ELSE LET i == CHOOSE i \in s : TRUE g == y[i] IN
        IF g.im THEN <<Ev("measure", "", <<>>, BitOf(c.layers, l, i))>>
        ELSE IF g.all THEN (IF g.n = o.idle /\ o.around THEN Sync \o <<Ev("gate", g.n, <<x>>, -1)>> \o Sync ELSE <<Ev("gate", g.n, <<x>>, -1)>>)
        ELSE <<Ev("gate", g.n, g.q, -1)>>)
  \o (IF o.between THEN Sync ELSE <<>>)
Demand(c, o) == [x \in Rg(c.lines) |-> Once(Flat([l \in 1..Len(c.layers) |-> OnLayer(c, o, l, x)])) \o <<Ev("measure", "", <<>>, o.bit[x])>>]
(* ---- verdicts on a program ---- *)
Bits(prog) == LET m == SelectSeq(prog, LAMBDA s : s.k = "measure") IN [i \in 1..Len(m) |-> m[i].b]
Undeclared(p) == \E i \in 1..Len(p.prog) : \E x \in Rg(p.prog[i].q) : x < 0 \/ (p.nq >= 0 /\ x >= p.nq)
BadBits(p) == \E i \in 1..Len(p.prog) : p.prog[i].k = "measure" /\ (p.prog[i].b < 0 \/ p.prog[i].b >= p.nb)
First(vs) == LET k == {i \in 1..Len(vs) : vs[i] # ""} IN IF k = {} THEN "" ELSE vs[CHOOSE i \in k : \A j \in k : i <= j]
Judge(c, o, p) == LET used == UNION {Rg(p.prog[i].q) : i \in 1..Len(p.prog)} qs == Rg(c.lines) w == IF used \subseteq qs THEN Run(qs, p.prog) ELSE <<>> d == Demand(c, o) IN
  IF ~(used \subseteq qs) THEN "acts on a qubit that is not in the circuit"
  ELSE IF \E i, j \in 1..Len(Bits(p.prog)) : i # j /\ Bits(p.prog)[i] = Bits(p.prog)[j] THEN "two measurements into one bit"
  ELSE IF \E x \in qs : SelectSeq(w[x], LAMBDA e : e.k = "gate") # SelectSeq(d[x], LAMBDA e : e.k = "gate") THEN "gates of a qubit"
  ELSE IF \E x \in qs : SelectSeq(w[x], LAMBDA e : e.k = "measure") # SelectSeq(d[x], LAMBDA e : e.k = "measure") THEN "measurements of a qubit"
  ELSE IF \E x \in qs : Once(w[x]) # d[x] /\ SelectSeq(w[x], LAMBDA e : e.k # "sync") = SelectSeq(d[x], LAMBDA e : e.k # "sync") THEN "synchronisation"
  ELSE IF \E x \in qs : Once(w[x]) # d[x] THEN "order of gates and measurements"
  ELSE IF Undeclared(p) THEN "a qubit is not declared" ELSE IF BadBits(p) THEN "a bit is not declared" ELSE ""
(* ---- a reference translation, one statement after the other ---- *)
Compile(c, o) ==
  Flat([l \in 1..Len(c.layers) |->
     Flat([i \in 1..Len(c.layers[l]) |-> LET g == c.layers[l][i] IN
       IF g.im THEN <<[k |-> "measure", n |-> "", q |-> g.q, b |-> BitOf(c.layers, l, i)]>>
       ELSE IF g.all THEN LET s == IF g.n = o.idle /\ o.around THEN <<[k |-> "sync", n |-> "", q |-> <<>>, b |-> -1]>> ELSE <<>> IN
            s \o [j \in 1..Len(c.lines) |-> [k |-> "gate", n |-> g.n, q |-> <<c.lines[j]>>, b |-> -1]] \o s
       ELSE <<[k |-> "gate", n |-> g.n, q |-> g.q, b |-> -1]>>])
     \o LET un == SelectSeq(c.lines, LAMBDA x : GateOn(c.layers[l], x) = {}) IN [j \in 1..Len(un) |-> [k |-> "gate", n |-> o.idle, q |-> <<un[j]>>, b |-> -1]]
     \o (IF o.between THEN <<[k |-> "sync", n |-> "", q |-> <<>>, b |-> -1]>> ELSE <<>>)])
  \o [j \in 1..Len(c.lines) |-> [k |-> "measure", n |-> "", q |-> <<c.lines[j]>>, b |-> o.bit[c.lines[j]]]]
(* ---- the meaning of gate names: rotations in eighths of a turn, as matrices times 1000 on the Bloch vector ---- *)
Cos8(k) == <<1000, 707, 0, -707, -1000, -707, 0, 707>>[(k % 8) + 1]
Sin8(k) == Cos8((k + 6) % 8)
Rot(ax, k) == LET c == Cos8(k) s == Sin8(k) IN
  CASE ax = "x" -> <<<<1000, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
    [] ax = "y" -> <<<<c, 0, s>>, <<0, 1000, 0>>, <<-s, 0, c>>>>
    [] ax = "z" -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1000>>>>
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> ((a[i][1] * b[1][j]) + (a[i][2] * b[2][j]) + (a[i][3] * b[3][j])) \div 1000]]
Tr(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
One3 == Rot("x", 0)
(* u3(theta, phi, lambda): first lambda about z, then theta about y, then phi about z *)
U3(th, ph, la) == Mul(Rot("z", ph), Mul(Rot("y", th), Rot("z", la)))
Had == Mul(Rot("x", 4), Rot("y", 2))
(* f: the word, a: its angles in eighths of a turn *)
Known1 == {"id", "I", "x", "X", "y", "Y", "z", "Z", "h", "H", "s", "sdg", "t", "tdg", "u3", "RX", "RY", "RZ"}
Meaning1(f, a) == CASE f \in {"id", "I"} -> One3 [] f \in {"x", "X"} -> Rot("x", 4) [] f \in {"y", "Y"} -> Rot("y", 4) [] f \in {"z", "Z"} -> Rot("z", 4)
  [] f \in {"h", "H"} -> Had [] f = "s" -> Rot("z", 2) [] f = "sdg" -> Rot("z", 6) [] f = "t" -> Rot("z", 1) [] f = "tdg" -> Rot("z", 7)
  [] f = "u3" -> U3(a[1], a[2], a[3]) [] f = "RX" -> Rot("x", a[1]) [] f = "RY" -> Rot("y", a[1]) [] f = "RZ" -> Rot("z", a[1])
(* two-qubit gates: images of XI, IX, ZI, IZ as [sign, letters] *)
Meaning2(f) == CASE f \in {"cx", "CNOT"} -> <<<<1, "XX">>, <<1, "IX">>, <<1, "ZI">>, <<1, "ZZ">>>>
                 [] f \in {"cz", "CZ"} -> <<<<1, "XZ">>, <<1, "ZX">>, <<1, "ZI">>, <<1, "IZ">>>>
                 [] f \in {"swap", "SWAP"} -> <<<<1, "IX">>, <<1, "XI">>, <<1, "IZ">>, <<1, "ZI">>>>
Near(a, b) == \A i, j \in 1..3 : (a[i][j] - b[i][j]) \in -2..2
=============================================================================
