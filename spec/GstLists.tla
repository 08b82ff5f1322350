-------------------------------- MODULE GstLists -------------------------------
(* The circuit lists and circuit structures of gate-set tomography.  A circuit   *)
(* is a sequence of numbers (labels of layers).                                  *)
EXTENDS Integers, Sequences, FiniteSets
Set(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET t == Dedup(SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)] IN IF x \in Set(t) THEN t ELSE Append(t, x)
NoDups(s) == Cardinality(Set(s)) = Len(s)
AddNew(s, new) == Dedup(s \o new)
\* all pairs, the second element running faster
Pairs2(a, b) == [k \in 1 .. Len(a) * Len(b) |-> <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]
Up(n) == [i \in 1 .. n |-> i]
SubsetOf(a, b) == Set(a) \subseteq Set(b)
Filter(s, keep) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN <<>> ELSE IF keep[i] THEN Append(f[i - 1], s[i]) ELSE f[i - 1] IN f[Len(s)]

(* -------------------------------- repetition ----------------------------------- *)
Times(c, n) == [i \in 1 .. Len(c) * n |-> c[((i - 1) % Len(c)) + 1]]
Reps(c, L) == IF c = <<>> THEN 0 ELSE L \div Len(c)
Whole(c, L) == Times(c, Reps(c, L))
Cut(c, L) == IF c = <<>> THEN <<>> ELSE [i \in 1 .. L |-> c[((i - 1) % Len(c)) + 1]]
Left(c, L) == IF c = <<>> THEN <<>> ELSE SubSeq(c, 1, L - Len(c) * Reps(c, L))
Power(trunc, c, L) == CASE trunc = "whole germ powers" -> Whole(c, L) [] trunc = "truncated germ powers" -> Cut(c, L) [] trunc = "length as exponent" -> Times(c, L)

(* --------------------------- relabelling of circuits ---------------------------- *)
\* al: sequence of <<label, circuit>>
Image(x, al) == IF \E i \in 1 .. Len(al) : al[i][1] = x THEN al[CHOOSE i \in 1 .. Len(al) : al[i][1] = x][2] ELSE <<x>>
Translate(c, al) == Flat([i \in 1 .. Len(c) |-> Image(c[i], al)])
\* rules: sequence of <<find, replace>>.  The common beginning (or else the common end) is context; what lies between is replaced.
Common(a, b) == CHOOSE n \in 0 .. Len(a) : n <= Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ (n < Len(a) /\ n < Len(b) => a[n + 1] # b[n + 1])
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
PreOf(r) == Common(r[1], r[2])
PostOf(r) == IF PreOf(r) > 0 THEN 0 ELSE Common(Rev(r[1]), Rev(r[2]))
At(c, i, r) == i + Len(r[1]) - 1 <= Len(c) /\ SubSeq(c, i, i + Len(r[1]) - 1) = r[1]
\* the replacements that apply, found from left to right and for each place in the order of the rules; a layer is replaced only once
RECURSIVE Hits(_, _, _, _, _)
Hits(c, rules, i, k, done) ==
  IF i > Len(c) THEN {}
  ELSE IF k > Len(rules) THEN Hits(c, rules, i + 1, 1, done)
  ELSE LET r == rules[k]  lo == i + PreOf(r)  hi == i + Len(r[1]) - PostOf(r) - 1 IN
       IF At(c, i, r) /\ ((lo .. hi) \cap done) = {}
       THEN {[lo |-> lo, hi |-> hi, new |-> SubSeq(r[2], PreOf(r) + 1, Len(r[2]) - PostOf(r))]} \cup Hits(c, rules, i, k + 1, done \cup (lo .. hi))
       ELSE Hits(c, rules, i, k + 1, done)
\* (what is inserted before a layer comes before what replaces the layer)
Manip(c, rules) ==
  LET H == Hits(c, rules, 1, 1, {})
      Ins(i) == {h \in H : h.lo = i /\ h.hi < h.lo}
      Out(i) == (IF Ins(i) = {} THEN <<>> ELSE (CHOOSE h \in Ins(i) : TRUE).new)
                \o (IF i > Len(c) THEN <<>>
                    ELSE IF \E h \in H : i \in h.lo .. h.hi
                         THEN LET h == CHOOSE h \in H : i \in h.lo .. h.hi IN IF h.lo = i THEN h.new ELSE <<>>
                         ELSE <<c[i]>>)
  IN Flat([i \in 1 .. Len(c) + 1 |-> Out(i)])

(* ------------------------------ lists of circuits -------------------------------- *)
Lgst(preps, effs, ops) ==
  Dedup(effs \o preps \o [k \in 1 .. Len(preps) * Len(effs) |-> Pairs2(preps, effs)[k][1] \o Pairs2(preps, effs)[k][2]]
        \o Flat([g \in 1 .. Len(ops) |-> [k \in 1 .. Len(preps) * Len(effs) |-> Pairs2(preps, effs)[k][1] \o <<ops[g]>> \o Pairs2(preps, effs)[k][2]]]))
\* cf: [preps, effs, ops, germs, Ls, prs (for each germ a sequence of <<i, j>>), trunc, nest, lgst, lim (for each germ)]
Sandwich(cf, base, prs) == [k \in 1 .. Len(prs) |-> cf.preps[prs[k][1]] \o base \o cf.effs[prs[k][2]]]
AtLength(cf, L) == IF L = 0 THEN Lgst(cf.preps, cf.effs, cf.ops)
                   ELSE Flat([g \in 1 .. Len(cf.germs) |-> IF L > cf.lim[g] THEN <<>> ELSE Sandwich(cf, Power(cf.trunc, cf.germs[g], L), cf.prs[g])])
RECURSIVE Upto(_, _)
Upto(cf, i) == IF i = 0 THEN (IF cf.lgst THEN Lgst(cf.preps, cf.effs, cf.ops) ELSE <<<<>>>>) ELSE Upto(cf, i - 1) \o AtLength(cf, cf.Ls[i])
Lists(cf) == [i \in 1 .. Len(cf.Ls) |-> Dedup(IF cf.nest THEN Upto(cf, i) ELSE AtLength(cf, cf.Ls[i]))]
\* extended LGST: powers of germs only
ELen(cf, L) == IF L = 0 THEN [g \in 1 .. Len(cf.ops) |-> <<cf.ops[g]>>] ELSE [g \in 1 .. Len(cf.germs) |-> Power(cf.trunc, cf.germs[g], L)]
EUpto(cf, i) == (IF cf.lgst THEN ELen(cf, 0) ELSE <<<<>>>>) \o Flat([k \in 1 .. i |-> ELen(cf, cf.Ls[k])])
ELists(cf) == [i \in 1 .. Len(cf.Ls) |-> Dedup(IF cf.nest THEN EUpto(cf, i) ELSE ELen(cf, cf.Ls[i]))]

(* --------------------------------- structures ------------------------------------ *)
\* pl: sequence of [L, g, base, prs (of <<prep, effect>> circuits), at (of <<row, column>>)]
NewS(kind, Ls, germs, preps, effs, rows, cols, rules, al) ==
  [kind |-> kind, Ls |-> Ls, germs |-> germs, preps |-> preps, effs |-> effs, rows |-> rows, cols |-> cols, rules |-> rules, al |-> al,
   all |-> <<>>, un |-> <<>>, pl |-> <<>>, firsts |-> <<>>, bases |-> <<>>]
Strs(p) == [k \in 1 .. Len(p.prs) |-> p.prs[k][1] \o p.base \o p.prs[k][2]]
\* prs: sequence of <<i, j>> (of indices) or, in a serial structure, of pairs of circuits
PairOf(S, pr) == IF S.kind = "serial" THEN pr ELSE <<S.preps[pr[1]], S.effs[pr[2]]>>
Missing(S, base, prs, filt) == [k \in 1 .. Len(prs) |-> filt.on /\ Translate(PairOf(S, prs[k])[1] \o base \o PairOf(S, prs[k])[2], S.al) \notin Set(filt.has)]
AddP(S, base, L, g, prs0, filt) ==
  LET miss == Missing(S, base, prs0, filt)
      prs == Filter(prs0, [k \in 1 .. Len(prs0) |-> ~miss[k]])
      p == [L |-> L, g |-> g, base |-> base, prs |-> [k \in 1 .. Len(prs) |-> PairOf(S, prs[k])],
            at |-> [k \in 1 .. Len(prs) |-> IF S.kind = "serial" THEN <<((k - 1) \div S.cols) + 1, ((k - 1) % S.cols) + 1>> ELSE <<prs[k][2], prs[k][1]>>]]
      new == [k \in 1 .. Len(prs) |-> Manip(Strs(p)[k], S.rules)]
  IN [s |-> [S EXCEPT !.pl = Append(@, p), !.all = AddNew(@, new),
                      !.firsts = IF base \in Set(S.bases) THEN @ ELSE Append(@, <<L, g>>), !.bases = IF base \in Set(@) THEN @ ELSE Append(@, base)],
      missing |-> LET m == Filter(prs0, miss) IN [k \in 1 .. Len(m) |-> PairOf(S, m[k])]]
Fits(S, prs) == S.kind # "serial" \/ Len(prs) <= S.rows * S.cols
AddU(S, cs, filt) ==
  LET miss(c) == filt.on /\ Translate(c, S.al) \notin Set(filt.has)
      new == Dedup(Filter(cs, [k \in 1 .. Len(cs) |-> cs[k] \notin Set(S.all) /\ ~miss(cs[k])])) IN
  [s |-> [S EXCEPT !.all = @ \o new, !.un = @ \o new], missing |-> Filter(cs, [k \in 1 .. Len(cs) |-> cs[k] \notin Set(S.all) /\ miss(cs[k])])]
\* the part of S at some lengths, germs, fiducials, and only some circuits; never a circuit that S does not have
RECURSIVE Rebuild(_, _, _)
Rebuild(T, pls, seqs) ==
  IF pls = <<>> THEN T
  ELSE LET p == Head(pls)
           ok(pr) == pr \in Set(p.prs) /\ (seqs.on => pr[1] \o p.base \o pr[2] \in Set(seqs.has))
           all == Pairs2(Up(Len(T.preps)), Up(Len(T.effs)))
           prs == IF T.kind = "serial" THEN p.prs ELSE Filter(all, [k \in 1 .. Len(all) |-> ok(<<T.preps[all[k][1]], T.effs[all[k][2]]>>)])
       IN Rebuild(IF p.L \in Set(T.Ls) /\ p.g \in Set(T.germs) THEN AddP(T, p.base, p.L, p.g, prs, [on |-> FALSE, has |-> <<>>]).s ELSE T, Tail(pls), seqs)
Truncated(S, Ls, germs, preps, effs, rows, cols, seqs) ==
  AddU(Rebuild(NewS(S.kind, Ls, germs, preps, effs, rows, cols, S.rules, S.al), S.pl, seqs), S.un, [on |-> FALSE, has |-> <<>>]).s
\* every label x replaced by ren[x]
Ren(c, ren) == [i \in 1 .. Len(c) |-> ren[c[i]]]
RenAll(cs, ren) == [i \in 1 .. Len(cs) |-> Ren(cs[i], ren)]
Renamed(S, ren) ==
  [S EXCEPT !.germs = RenAll(@, ren), !.preps = RenAll(@, ren), !.effs = RenAll(@, ren), !.al = <<>>, !.all = RenAll(@, ren), !.un = RenAll(@, ren), !.bases = RenAll(@, ren),
            !.firsts = [k \in 1 .. Len(@) |-> <<@[k][1], Ren(@[k][2], ren)>>],
            !.pl = [k \in 1 .. Len(@) |-> [@[k] EXCEPT !.g = Ren(@, ren), !.base = Ren(@, ren), !.prs = [j \in 1 .. Len(@) |-> <<Ren(@[j][1], ren), Ren(@[j][2], ren)>>]]]]
\* what a user sees of S
Place(S, k) == LET p == S.pl[k] IN [L |-> p.L, g |-> p.g, base |-> p.base, els |-> {<<p.at[j][1], p.at[j][2], Strs(p)[j]>> : j \in 1 .. Len(p.prs)}, n |-> Len(p.prs),
                                    first |-> <<p.L, p.g>> \in Set(S.firsts)]
View0(S) == [Ls |-> S.Ls, germs |-> S.germs, all |-> S.all, un |-> S.un, pl |-> {Place(S, k) : k \in 1 .. Len(S.pl)}]
FirstPl(S) == {p \in {Place(S, k) : k \in 1 .. Len(S.pl)} : p.first /\ p.n > 0}
UsedX(S) == SelectSeq(S.Ls, LAMBDA L : \E p \in FirstPl(S) : p.L = L /\ p.g \in Set(S.germs))
UsedY(S) == SelectSeq(S.germs, LAMBDA g : \E p \in FirstPl(S) : p.g = g /\ p.L \in Set(S.Ls))
\* the structures of an experiment
RECURSIVE Germs(_, _, _, _, _)
Germs(S, cf, L, g, filt) == IF g > Len(cf.germs) THEN S
  ELSE Germs(IF L > cf.lim[g] \/ (cf.lgst /\ cf.germs[g] = <<>>) THEN S ELSE AddP(S, Power(cf.trunc, cf.germs[g], L), L, cf.germs[g], cf.prs[g], filt).s, cf, L, g + 1, filt)
FirstLgst(S, cf, L, filt) == AddU(AddP(S, <<>>, L, <<>>, Pairs2(Up(Len(cf.preps)), Up(Len(cf.effs))), filt).s, Lgst(cf.preps, cf.effs, cf.ops), filt).s
OneMore(S, cf, i, filt) ==
  LET L == cf.Ls[i] IN
  IF L = 0 THEN AddU(S, Lgst(cf.preps, cf.effs, cf.ops), filt).s
  ELSE Germs(IF cf.lgst /\ i = 1 THEN FirstLgst(S, cf, L, filt) ELSE S, cf, L, 1, filt)
Empty0(cf, Ls) == NewS("grid", Ls, IF cf.lgst THEN <<<<>>>> \o cf.germs ELSE cf.germs, cf.preps, cf.effs, Len(cf.effs), Len(cf.preps), cf.rules, cf.al)
RECURSIVE Running(_, _, _)
Running(cf, i, filt) == IF i = 0 THEN Empty0(cf, <<>>) ELSE LET S == Running(cf, i - 1, filt) IN OneMore([S EXCEPT !.Ls = Append(@, cf.Ls[i])], cf, i, filt)
Structs(cf, filt) == [i \in 1 .. Len(cf.Ls) |-> IF cf.nest THEN Running(cf, i, filt) ELSE OneMore(Empty0(cf, <<cf.Ls[i]>>), cf, i, filt)]

\* the least place for n elements, nearly square, or for given rows (or columns); 0: to be found
Room(n, rows, cols, r0, c0) ==
  LET Rt == IF rows = 0 THEN r0 ELSE rows  Ct == IF cols = 0 THEN c0 ELSE cols
      Up1(m) == IF m = 0 THEN n ELSE (n + m - 1) \div m
      Sq == CHOOSE x \in {<<a, b>> \in (0 .. n) \X (0 .. n) : (b = a \/ b = a + 1) /\ a * b >= n /\ \A c, d \in 0 .. n : (d = c \/ d = c + 1) /\ c * d >= n => a + b <= c + d} : TRUE
  IN CASE Rt = -1 /\ Ct = -1 -> Sq [] Rt = -1 -> <<Up1(Ct), Ct>> [] Ct = -1 -> <<Rt, Up1(Rt)>> [] OTHER -> <<Rt, Ct>>
MaxEls(S, Ls, germs) == LET N == {Len(S.pl[k].prs) : k \in {k \in 1 .. Len(S.pl) : S.pl[k].L \in Set(Ls) /\ S.pl[k].g \in Set(germs)}} \cup {0} IN CHOOSE x \in N : \A y \in N : y <= x
(* ------------------------------- enumerations ------------------------------------ *)
Words(n, L) == [1 .. L -> 1 .. n]
AllWords(n, lo, hi) == UNION {Words(n, L) : L \in lo .. hi}
Rotate(c, k) == [i \in 1 .. Len(c) |-> c[((i - 1 + k) % Len(c)) + 1]]
Periodic(c) == \E d \in 1 .. Len(c) - 1 : Len(c) % d = 0 /\ c = Times(SubSeq(c, 1, d), Len(c) \div d)
\* one of each class of cyclic permutations, no powers
Necklaces(cs, n, L) == /\ \A c \in Set(cs) : c \in AllWords(n, 1, L) /\ ~Periodic(c)
                       /\ \A i, j \in 1 .. Len(cs) : i # j => \A k \in 0 .. Len(cs[i]) : cs[j] # Rotate(cs[i], k)
                       /\ \A w \in AllWords(n, 1, L) : Periodic(w) \/ \E c \in Set(cs) : Len(c) = Len(w) /\ \E k \in 0 .. Len(w) : c = Rotate(w, k)
=============================================================================
