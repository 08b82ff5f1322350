---------------------------- MODULE HypoTestMC ----------------------------
(* Any order of rejections leads to the same result; corrections are ordered by power. *)
EXTENDS HypoTest
PSv == {<<1, 32>>, <<1, 20>>, <<1, 12>>, <<1, 9>>, <<1, 5>>}
PSq == {<<1, 32>>, <<1, 20>>, <<1, 9>>}
Ev == {<<0, 1>>, <<1, 2>>, <<1, 1>>}
CONSTANTS M, PS, Entries, Kinds
VARIABLES kind, p, st, g0, todo
Alpha == <<1, 8>>
W == [i \in 1..M |-> 1]
Gs == {g \in [1..M -> [1..M -> Entries]] : \A i \in 1..M : g[i][i] = Zero /\
         (LET RECURSIVE S(_) S(j) == IF j = 0 THEN Zero ELSE Add(g[i][j], S(j-1)) IN Le(S(M), One))}
Init == /\ kind \in [1..M -> Kinds]
        /\ p \in [1..M -> {<<a>> : a \in PS}]
        /\ g0 \in Gs
        /\ st = St(kind, Alpha, W, g0) /\ todo = TRUE
Next == /\ \E h \in CanReject(kind, p, st) : st' = Reject(st, h)
        /\ UNCHANGED <<kind, p, g0, todo>>
vars == <<kind, p, st, g0, todo>>
Spec == Init /\ [][Next]_vars
Total(a) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN Zero ELSE Add(a[j], S(j-1)) IN S(Len(a))
(* the significance level is never exceeded *)
LevelKept == Le(Total(st.al), Alpha)
RowsOk == \A i \in 1..M : Le(Total(st.g[i]), One)
(* all maximal runs end with the same verdicts *)
Confluent == CanReject(kind, p, st) = {} => Result(kind, p, st) = Test(kind, Alpha, W, g0, p)
(* rejecting never makes another rejection impossible *)
Monotone == [][\A i \in Open(kind, st) : Le(st.al[i], st'.al[i]) \/ i \in st'.rej]_vars
(* a family of M hypotheses under each correction: Bonferroni <= Holms <= Hochberg <= Benjamini-Hochberg <= none; the graph form of Holms is the step-down rule *)
Sub1(a, b) == \A i \in 1..M : a[i] => b[i]
Ordered == LET ps == [i \in 1..M |-> p[i][1]]  F(c) == Family(c, Alpha, ps) IN
  /\ Sub1(F("Bonferroni"), F("Holms")) /\ Sub1(F("Holms"), F("Hochberg"))
  /\ Sub1(F("Hochberg"), F("Benjamini-Hochberg")) /\ Sub1(F("Benjamini-Hochberg"), F("none"))
HolmsIsHolms == (\A i \in 1..M : kind[i] = "") =>
  LET ps == [i \in 1..M |-> p[i][1]] r == Test(kind, Alpha, W, HolmGraph(kind), p) IN
  [i \in 1..M |-> r[i][1]] = Family("Holms", Alpha, ps)
=============================================================================
