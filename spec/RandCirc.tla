-------------------------------- MODULE RandCirc -------------------------------
(* What a randomized-benchmarking circuit must be: which gates it may use, how   *)
(* long it is, and which outcome it gives when there are no errors.  Circuits    *)
(* are sequences of layers, a layer a sequence of [g, q] (g: index into a table  *)
(* of tableaux, q: qubits).                                                      *)
EXTENDS CliffordAlg
Set(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Circ(lays, n, lib) == CircuitT(Flatten(lays), n, lib)

(* --- ideal outcome: twice the probability of a 1 on qubit i after C|0..0> ----- *)
Out2(C, i) == LET n == NQ(C)  g == InvP(C, PZ(n, i)) IN IF g.x # Zeros(n) THEN 1 ELSE IF g.p = 0 THEN 0 ELSE 2
Outs2(C) == [i \in 1 .. NQ(C) |-> Out2(C, i)]
Definite(C) == \A i \in 1 .. NQ(C) : Out2(C, i) # 1

(* ------------------------------- layers -------------------------------------- *)
QubitsOf(lay) == Flatten([i \in 1 .. Len(lay) |-> lay[i].q])
Usable(gq, al) == \E i \in 1 .. Len(al) : al[i].g = gq.g /\ al[i].q = gq.q
LayerOk(lay, n, al) ==
  /\ \A i \in 1 .. Len(lay) : \A k \in 1 .. Len(lay[i].q) : lay[i].q[k] \in 1 .. n
  /\ Cardinality(Set(QubitsOf(lay))) = Len(QubitsOf(lay))
  /\ \A i \in 1 .. Len(lay) : Usable(lay[i], al)
Complete(lay, n) == Set(QubitsOf(lay)) = 1 .. n
Twos(lay) == {lay[i] : i \in {j \in 1 .. Len(lay) : Len(lay[j].q) = 2}}
\* the part of the circuit on the qubits ks (every gate lies inside or outside of ks)
KeepL(lay, ks) == SelectSeq(lay, LAMBDA x : Set(x.q) \subseteq ks)
SameLayer(a, b) == Set(a) = Set(b) /\ Len(a) = Len(b)
SameLayers(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameLayer(a[i], b[i])
\* equal, up to idle layers at the end
SameStart(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
  /\ \A i \in 1 .. m : SameLayer(a[i], b[i])
  /\ \A i \in m + 1 .. Len(a) : a[i] = <<>>
  /\ \A i \in m + 1 .. Len(b) : b[i] = <<>>
Reversed(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
\* each layer is undone by its mirror image
Mirror(lays, n, lib) == /\ Len(lays) % 2 = 0
                        /\ \A i \in 1 .. Len(lays) \div 2 : Circ(<<lays[i], lays[Len(lays) + 1 - i]>>, n, lib) = Identity(n)

(* --------------------------- summary of counts -------------------------------- *)
Hamming(a, b) == Cardinality({i \in 1 .. Len(a) : a[i] # b[i]})
\* cs: sequence of [o: bits, c: count]
CountAt(cs, P(_)) == SumSeq([i \in 1 .. Len(cs) |-> IF P(cs[i].o) THEN cs[i].c ELSE 0])
HamCounts(cs, ideal) == [h \in 1 .. Len(ideal) + 1 |-> CountAt(cs, LAMBDA o : Hamming(o, ideal) = h - 1)]
\* 2^n times the sum of (-1/2)^h over the counts
Adjusted(cs, ideal) == LET n == Len(ideal)  hc == HamCounts(cs, ideal) IN
  SumSeq([h \in 1 .. n + 1 |-> (IF (h - 1) % 2 = 0 THEN 1 ELSE -1) * Pow2(n - (h - 1)) * hc[h]])
=============================================================================
