----------------------------- MODULE HypoTest -----------------------------
(* Sequentially rejective multiple tests.                                   *)
(* A test has m top-level hypotheses; kind[i] = "" for a single hypothesis, *)
(* otherwise hypothesis i is a family tested with that local correction.    *)
(* p[i] is the sequence of its p-values (one for a single hypothesis).      *)
(* All numbers are rationals <<n, d>> with d > 0, in lowest terms.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Q(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == GCD(AbsI(n), d) IN <<n \div g, d \div g>>
Mul(a, b) == LET g == GCD(a[1], b[2]) h == GCD(b[1], a[2])
                 gg == IF g = 0 THEN 1 ELSE g  hh == IF h = 0 THEN 1 ELSE h
             IN Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
Add(a, b) == LET g == GCD(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Sub(a, b) == Add(a, <<-b[1], b[2]>>)
Div(a, b) == Mul(a, <<b[2], b[1]>>)      \* b > 0
Le(a, b) == LET g == GCD(a[2], b[2]) IN a[1] * (b[2] \div g) <= b[1] * (a[2] \div g)
Zero == <<0, 1>>
One == <<1, 1>>

(* ------------------------------------------------ local corrections *)
Sorted(ps) == SortSeq(ps, LAMBDA a, b : Le(a, b) /\ a # b)
(* the rejected hypotheses are those whose p-value is at most a cutoff; <<>> = none *)
MaxK(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Cutoff(corr, alpha, ps) ==
  LET n == Len(ps) s == Sorted(ps)
      byrank(T(_)) == {k \in 1..n : Le(s[k], T(k))}
      sd == byrank(LAMBDA k : Div(alpha, <<n - k + 1, 1>>))
      k == CASE corr = "Holms" -> MaxK({i \in 0..n : \A j \in 1..i : j \in sd})
             [] corr = "Hochberg" -> MaxK(sd)
             [] corr = "Benjamini-Hochberg" -> MaxK(byrank(LAMBDA i : Mul(alpha, Q(i, n))))
             [] corr = "Bonferroni" -> MaxK(byrank(LAMBDA i : Div(alpha, <<n, 1>>)))
             [] corr = "none" -> MaxK(byrank(LAMBDA i : alpha))
  IN IF k = 0 THEN <<>> ELSE s[k]
Family(corr, alpha, ps) == LET c == Cutoff(corr, alpha, ps)
   IN [i \in 1..Len(ps) |-> c # <<>> /\ Le(ps[i], c)]

(* ------------------------------------------------ the graph procedure *)
HolmGraph(kind) == LET m == Len(kind) IN [i \in 1..m |-> [j \in 1..m |-> IF i = j \/ kind[i] # "" \/ m = 1 THEN Zero ELSE <<1, m - 1>>]]
NoOut(kind, g) == [i \in 1..Len(kind) |-> [j \in 1..Len(kind) |-> IF kind[i] # "" THEN Zero ELSE g[i][j]]]
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE s[1] + SumI(Tail(s))
Share(alpha, w) == [i \in 1..Len(w) |-> Mul(alpha, Q(w[i], SumI(w)))]

St(kind, alpha, w, g) == [al |-> Share(alpha, w), g |-> NoOut(kind, g), rej |-> {}]
Open(kind, st) == {i \in 1..Len(kind) : kind[i] = "" /\ i \notin st.rej}
CanReject(kind, p, st) == {i \in Open(kind, st) : Le(p[i][1], st.al[i])}
(* hypothesis h is rejected: its significance is passed on along the graph, and the graph closes over the gap *)
Reject(st, h) ==
  LET m == Len(st.al)  R == st.rej \cup {h}  g == st.g
      ng(l, k) == IF l = k \/ l \in R \/ k \in R THEN Zero
                  ELSE LET b == Sub(One, Mul(g[l][h], g[h][l])) IN
                       IF b = Zero THEN Zero ELSE Div(Add(g[l][k], Mul(g[l][h], g[h][k])), b)
  IN [rej |-> R,
      al |-> [l \in 1..m |-> IF l \in R THEN (IF l = h THEN Zero ELSE st.al[l]) ELSE Add(st.al[l], Mul(st.al[h], g[h][l]))],
      g |-> [l \in 1..m |-> [k \in 1..m |-> ng(l, k)]]]
RECURSIVE Run(_, _, _)
Run(kind, p, st) == LET C == CanReject(kind, p, st) IN
  IF C = {} THEN st ELSE Run(kind, p, Reject(st, CHOOSE i \in C : \A j \in C : i <= j))
Result(kind, p, st) == [i \in 1..Len(kind) |-> IF kind[i] = "" THEN <<i \in st.rej>> ELSE Family(kind[i], st.al[i], p[i])]
Test(kind, alpha, w, g, p) == Result(kind, p, Run(kind, p, St(kind, alpha, w, g)))
=============================================================================
