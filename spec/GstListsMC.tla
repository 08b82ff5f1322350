------------------------------- MODULE GstListsMC ------------------------------
(* Structures as objects with a history: plaquettes are added (all pairs or some, *)
(* filtered by what a data set has), loose circuits are added, structures are     *)
(* copied, truncated and renamed.  The operations of GstLists are checked against *)
(* statements that do not mention how they are computed.                          *)
EXTENDS GstLists, TLC, Json
CONSTANTS MaxOps, Emit, Rules
VARIABLES S, made, ops
vars == <<S, made, ops>>
FIDS == <<<<>>, <<1>>>>
EFFS == <<<<>>, <<2>>>>
GERMS == <<<<>>, <<1>>, <<1, 2>>>>
LS == <<1, 2>>
ALIAS == IF Rules = 2 THEN <<<<1, <<2, 2>>>>>> ELSE <<>>
RULES == CASE Rules = 0 -> <<>> [] Rules = 1 -> <<<<<<1, 1>>, <<1, 3>>>>, <<<<2>>, <<3, 3>>>>>> [] Rules = 2 -> <<<<<<1, 2>>, <<2>>>>>>
NONE == [on |-> FALSE, has |-> <<>>]
FILTS == {NONE, [on |-> TRUE, has |-> <<<<1>>, <<1, 2>>, <<2, 2>>, <<1, 1>>>>]}
ALLP == Pairs2(Up(2), Up(2))
PAIRS == {ALLP, <<<<1, 1>>, <<2, 2>>>>, <<<<2, 1>>>>, <<>>}
LOOSE == {<<<<1>>, <<2, 1>>>>, <<<<3>>, <<1, 2>>, <<3>>>>}
Init == S = NewS("grid", LS, GERMS, FIDS, EFFS, 2, 2, RULES, ALIAS) /\ made = {} /\ ops = <<>>
Bases(L, g) == IF g = 1 THEN <<>> ELSE Whole(GERMS[g], L)
Add == \E L \in Set(LS), g \in 1 .. 3, prs \in PAIRS, f \in FILTS :
         /\ <<L, GERMS[g]>> \notin {<<S.pl[k].L, S.pl[k].g>> : k \in 1 .. Len(S.pl)}
         /\ (Emit => prs # <<>> /\ (f.on => prs = ALLP))
         /\ S' = AddP(S, Bases(L, g), L, GERMS[g], prs, f).s
         /\ ops' = (IF Emit THEN Append(ops, [op |-> "addp", L |-> L, g |-> g, prs |-> prs, f |-> f]) ELSE <<>>)
         /\ UNCHANGED made
Loose == \E cs \in LOOSE, f \in FILTS : /\ S' = AddU(S, cs, f).s
         /\ ops' = (IF Emit THEN Append(ops, [op |-> "addu", cs |-> cs, f |-> f]) ELSE <<>>)
         /\ UNCHANGED made
Next == (Emit => Len(ops) < MaxOps) /\ Len(S.pl) + Len(S.un) < MaxOps /\ (Add \/ Loose)
Spec == Init /\ [][Next]_vars
\* every circuit once; exactly those of the plaquettes (after the rules) and the loose ones
NoneTwice == NoDups(S.all) /\ NoDups(S.un)
Exactly == Set(S.all) = {Manip(Strs(S.pl[k])[j], S.rules) : <<k, j>> \in {<<k, j>> \in (1 .. Len(S.pl)) \X (1 .. 4) : j <= Len(S.pl[k].prs)}} \cup Set(S.un)
Placed == \A k \in 1 .. Len(S.pl) : \A e \in Place(S, k).els : e[3] = S.preps[e[2]] \o S.pl[k].base \o S.effs[e[1]]
FirstsOk == /\ \A k \in 1 .. Len(S.pl) : Cardinality({j \in 1 .. Len(S.pl) : S.pl[j].base = S.pl[k].base /\ <<S.pl[j].L, S.pl[j].g>> \in Set(S.firsts)}) = 1
\* truncation: nothing new, and everything of it whose place is kept
TruncOk == \A Ls \in {<<1>>, LS, <<2>>}, gs \in {GERMS, <<<<1>>, <<1, 2>>>>}, ps \in {FIDS, <<<<1>>>>} :
  LET T == Truncated(S, Ls, gs, ps, EFFS, 2, 2, NONE) IN
  /\ SubsetOf(T.all, S.all)
  /\ \A k \in 1 .. Len(S.pl) : S.pl[k].L \in Set(Ls) /\ S.pl[k].g \in Set(gs) =>
       \E j \in 1 .. Len(T.pl) : T.pl[j].base = S.pl[k].base /\ T.pl[j].L = S.pl[k].L /\ T.pl[j].g = S.pl[k].g /\ Set(T.pl[j].prs) = {x \in Set(S.pl[k].prs) : x[1] \in Set(ps)}
  /\ (Ls = LS /\ gs = GERMS /\ ps = FIDS => Set(T.all) = Set(S.all) /\ T.firsts = S.firsts /\ FirstPl(T) = FirstPl(S))
\* a renaming that permutes the labels and back
RenOk == Renamed(Renamed(S, <<2, 3, 1>>), <<3, 1, 2>>) = [S EXCEPT !.al = <<>>]
Shape == [pl |-> S.pl, un |-> S.un]
EmitOk == (Emit /\ Len(ops) > 0) => PrintT("SCRIPT " \o ToJson([rules |-> Rules, ops |-> ops]))
\* ------------------------------- facts about the operators
C3 == AllWords(2, 0, 4)
ASSUME \A c \in C3 : \A L \in 0 .. 5 : /\ Len(Whole(c, L)) <= L /\ (c # <<>> => Len(Whole(c, L)) > L - Len(c) /\ Cut(c, L) = Whole(c, L) \o Left(c, L))
ASSUME \A c \in C3 : /\ Manip(c, <<<<<<1>>, <<2, 3>>>>>>) = Translate(c, <<<<1, <<2, 3>>>>>>)
                     /\ Manip(c, <<<<<<1, 2>>, <<1, 3>>>>>>) = [i \in 1 .. Len(c) |-> IF c[i] = 2 /\ i > 1 /\ c[i - 1] = 1 THEN 3 ELSE c[i]]
                     /\ Manip(c, <<<<<<1, 2>>, <<3, 2>>>>, <<<<1, 2>>, <<1, 3, 3>>>>>>)
                        = Flat([i \in 1 .. Len(c) |-> IF c[i] = 1 /\ i < Len(c) /\ c[i + 1] = 2 THEN <<3>> ELSE IF c[i] = 2 /\ i > 1 /\ c[i - 1] = 1 THEN <<3, 3>> ELSE <<c[i]>>])
                     /\ Manip(c, <<>>) = c
CF(Ls, nest, lgst, prs, trunc) == [preps |-> FIDS, effs |-> EFFS, ops |-> <<1, 2>>, germs |-> <<<<1>>, <<1, 2>>>>, Ls |-> Ls, prs |-> <<prs, prs>>, trunc |-> trunc, nest |-> nest, lgst |-> lgst,
                             lim |-> <<1, 99>>, rules |-> <<>>, al |-> <<>>]
ASSUME \A Ls \in {<<1>>, <<1, 2>>, <<0, 2, 3>>, <<2, 1>>}, lg \in BOOLEAN, prs \in PAIRS, t \in {"whole germ powers", "truncated germ powers", "length as exponent"} :
  LET N == Lists(CF(Ls, TRUE, lg, prs, t))  F == Lists(CF(Ls, FALSE, lg, prs, t))  T == Structs(CF(Ls, TRUE, lg, prs, t), NONE)  G == Structs(CF(Ls, FALSE, lg, prs, t), NONE) IN
  /\ \A i \in 1 .. Len(Ls) : NoDups(N[i]) /\ NoDups(F[i]) /\ SubsetOf(F[i], N[i]) /\ (i > 1 => SubSeq(N[i], 1, Len(N[i - 1])) = N[i - 1])
  \* lists and structures agree
  /\ \A i \in 1 .. Len(Ls) : /\ Set(T[i].all) \cup (IF lg THEN {} ELSE {<<>>}) = Set(N[i])
                             /\ Set(G[i].all) = Set(F[i]) \cup (IF lg /\ i = 1 THEN Set(Lgst(FIDS, EFFS, <<1, 2>>)) ELSE {})
  \* a circuit of the shortest list is short
  /\ (t # "length as exponent" => \A i \in 1 .. Len(Ls) : \A c \in Set(F[i]) : Ls[i] > 0 => Len(c) <= Ls[i] + 2)
ASSUME Necklaces(<<<<1>>, <<2>>, <<1, 2>>, <<1, 1, 2>>, <<1, 2, 2>>>>, 2, 3)
=============================================================================
