----------------------------- MODULE GstListsTrace -----------------------------
(* Judges circuit lists, structures and designs that were really made.  The      *)
(* structures of a trace live on; after each event all of them are looked at.    *)
EXTENDS GstLists, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, objs, bad
vars == <<tid, l, objs, bad>>
Is(b, w) == IF b THEN "" ELSE w
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstOf(Tail(s))
NONE == [on |-> FALSE, has |-> <<>>]

(* -------------------------------- live structures ------------------------------ *)
Trunc(S, e) ==
  IF S.kind = "grid" THEN Truncated(S, e.Ls, e.germs, e.preps, e.effs, Len(e.effs), Len(e.preps), e.seqs)
  ELSE LET r == Room(MaxEls(S, e.Ls, e.germs), e.rows, e.cols, S.rows, S.cols) IN Truncated(S, e.Ls, e.germs, <<>>, <<>>, r[1], r[2], NONE)
After(e) ==
  CASE e.raised -> objs
    [] e.op = "new" -> Append(objs, NewS(e.kind, e.Ls, e.germs, e.preps, e.effs, e.rows, e.cols, e.rules, e.al))
    [] e.op = "addp" -> [objs EXCEPT ![e.s] = AddP(@, e.base, e.L, e.g, e.prs, e.filt).s]
    [] e.op = "addu" -> [objs EXCEPT ![e.s] = AddU(@, e.cs, e.filt).s]
    [] e.op = "copy" -> Append(objs, objs[e.s])
    [] e.op = "trunc" -> Append(objs, Trunc(objs[e.s], e))
    [] e.op = "ren" -> Append(objs, Renamed(objs[e.s], e.ren))
    [] OTHER -> objs
\* o: [Ls, germs, all, un, rc, minor, usedx, usedy, bases, pl: of [L, g, has, base, els, fels]]
PlaceOk(S, o) ==
  LET K == {k \in 1 .. Len(S.pl) : S.pl[k].L = o.L /\ S.pl[k].g = o.g} IN
  IF K = {} THEN Is(~o.has /\ o.els = <<>> /\ o.fels = <<>>, "plaquette that was not added")
  ELSE LET p == Place(S, CHOOSE k \in K : TRUE) IN
       IF ~o.has THEN "plaquette is missing"
       ELSE IF o.base # p.base THEN "base circuit of a plaquette"
       ELSE IF Len(o.els) # p.n \/ Set(o.els) # p.els THEN "circuits of a plaquette"
       ELSE Is(IF p.first THEN o.fels = o.els ELSE o.fels = <<>>, "first plaquette of a base circuit")
Same(S, o) ==
  FirstOf(<<Is(o.Ls = S.Ls, "lengths"), Is(o.germs = S.germs, "germs"),
            Is(Set(o.all) = Set(S.all), "circuits"), Is(NoDups(o.all), "circuit twice"),
            Is(Set(o.un) = Set(S.un) /\ NoDups(o.un), "circuits outside of plaquettes"),
            Is(o.rc = <<S.rows, S.cols>>, "rows and columns")>>
          \o [k \in 1 .. Len(o.pl) |-> PlaceOk(S, o.pl[k])]
          \o <<Is(o.usedx = UsedX(S), "used lengths"), Is(o.usedy = UsedY(S), "used germs"),
               Is(Set(o.bases) = {S.pl[k].base : k \in {k \in 1 .. Len(S.pl) : S.pl[k].L \in Set(S.Ls) /\ S.pl[k].g \in Set(S.germs)}}, "base circuits")>>)
Looks(A, e) ==
  IF Len(e.obs) # Len(A) THEN "number of structures (harness)"
  ELSE FirstOf([i \in 1 .. Len(A) |-> LET w == Same(A[i], e.obs[i]) IN
         IF w = "" THEN "" ELSE IF i = Len(A) \/ (e.op \in {"addp", "addu"} /\ i = e.s) THEN w ELSE w \o " of another structure changed"])
Expanded(S, e) ==
  LET k == CHOOSE k \in 1 .. Len(S.pl) : S.pl[k].L = e.L /\ S.pl[k].g = e.g
      p == S.pl[k]
      t == [j \in 1 .. Len(p.prs) |-> <<p.at[j][1], p.at[j][2], Translate(Strs(p)[j], S.al), <<Translate(p.prs[j][1], S.al), Translate(p.prs[j][2], S.al)>>>>]
      w == Filter(t, [j \in 1 .. Len(t) |-> ~e.filt.on \/ t[j][3] \in Set(e.filt.has)])
  IN Is(e.els = w, "expanded plaquette")
Missed(e, m) == Is(Len(e.missing) = Len(m) /\ Set(e.missing) = Set(m), "missing circuits")
Live(e, A) ==
  IF e.op = "addp" /\ ~Fits(objs[e.s], LET Q == AddP(objs[e.s], e.base, e.L, e.g, e.prs, e.filt).s.pl IN Q[Len(Q)].prs) THEN (IF e.raised THEN Looks(A, e) ELSE "too many circuits accepted")
  ELSE IF e.raised THEN "failed"
  ELSE LET w == CASE e.op = "addp" -> Missed(e, AddP(objs[e.s], e.base, e.L, e.g, e.prs, e.filt).missing)
                  [] e.op = "addu" -> Missed(e, AddU(objs[e.s], e.cs, e.filt).missing)
                  [] e.op = "exp" -> Expanded(objs[e.s], e)
                  [] OTHER -> ""
       IN IF w # "" THEN w ELSE Looks(A, e)

(* ------------------------------------ lists ------------------------------------- *)
SameLists(got, w) ==
  IF Len(got) # Len(w) THEN "number of lists"
  ELSE FirstOf([i \in 1 .. Len(w) |-> IF ~NoDups(got[i]) THEN "circuit twice in a list" ELSE IF Set(w[i]) \ Set(got[i]) # {} THEN "circuit is missing in a list"
                                      ELSE Is(Set(got[i]) = Set(w[i]), "circuit too many in a list")])
SameStructs(got, w) == IF Len(got) # Len(w) THEN "number of structures" ELSE FirstOf([i \in 1 .. Len(w) |-> Same(w[i], got[i])])
\* a data set lacks some circuit
Lacks(cf, filt) == \E S \in Set(Structs(cf, NONE)) :
  \/ \E k \in 1 .. Len(S.pl) : \E j \in 1 .. Len(S.pl[k].prs) : Translate(Strs(S.pl[k])[j], cf.al) \notin Set(filt.has)
  \/ \E c \in Set(S.un) : Translate(c, cf.al) \notin Set(filt.has)
\* kept at random: the fixed pairs and others, in all the right number; num / den: the fraction
Kept(e) ==
  LET cf == e.cf  N == Len(cf.preps) * Len(cf.effs)  n == ((2 * e.num * N) + e.den) \div (2 * e.den)
      All == Pairs2(cf.preps, cf.effs)
      Pl(o, g, L) == LET K == {k \in 1 .. Len(o.pl) : o.pl[k].L = L /\ o.pl[k].g = cf.germs[g]} IN o.pl[CHOOSE k \in K : TRUE]
      OkPl(o, g, L) ==
        LET p == Pl(o, g, L)
            base == Power(cf.trunc, cf.germs[g], L)
            fixed == IF e.fixed THEN {<<x[2], x[1], cf.preps[x[1]] \o base \o cf.effs[x[2]]>> : x \in Set(cf.prs[g])} ELSE {}
            all == {<<x[2], x[1], cf.preps[x[1]] \o base \o cf.effs[x[2]]>> : x \in (1 .. Len(cf.preps)) \X (1 .. Len(cf.effs))} IN
        IF L > cf.lim[g] THEN Is(~p.has, "germ above its greatest length")
        ELSE IF ~p.has \/ p.base # base THEN "base circuit of a plaquette"
        ELSE IF ~(Set(p.els) \subseteq all) \/ ~NoDups(p.els) THEN "circuits of a plaquette"
        ELSE IF ~(fixed \subseteq Set(p.els)) THEN "fixed pair of fiducials was dropped"
        ELSE Is(Len(p.els) = (IF Cardinality(fixed) > n THEN Cardinality(fixed) ELSE n), "number of kept pairs")
      Cs(o) == UNION {{x[3] : x \in Set(o.pl[k].els)} : k \in 1 .. Len(o.pl)} \cup (IF cf.lgst THEN Set(Lgst(cf.preps, cf.effs, cf.ops)) ELSE {})
  IN IF Len(e.got) # Len(cf.Ls) \/ Len(e.lists) # Len(cf.Ls) THEN "number of lists"
     ELSE FirstOf([i \in 1 .. Len(cf.Ls) |->
            LET o == e.got[i] IN
            FirstOf([k \in 1 .. Len(cf.germs) * Len(o.Ls) |-> OkPl(o, ((k - 1) % Len(cf.germs)) + 1, o.Ls[((k - 1) \div Len(cf.germs)) + 1])]
                    \o <<Is(o.Ls = (IF cf.nest THEN SubSeq(cf.Ls, 1, i) ELSE <<cf.Ls[i]>>), "lengths"),
                         Is((NoDups(o.all) /\ Set(o.all) = Cs(o)) \/ (~cf.nest /\ i > 1), "circuits"),
                         Is(NoDups(e.lists[i]) /\ (IF cf.nest THEN Set(e.lists[i]) = Set(o.all) \cup (IF cf.lgst THEN {} ELSE {<<>>})
                                                   ELSE Set(e.lists[i]) = UNION {{x[3] : x \in Set(o.pl[k].els)} : k \in {k \in 1 .. Len(o.pl) : o.pl[k].g # <<>>}}), "lists differ from structures")>>)])
Design(e) ==
  IF e.filt.on /\ e.action = "raise" /\ Lacks(e.cf, e.filt) THEN Is(e.raised, "missing circuits were not reported")
  ELSE IF e.raised THEN "failed"
  ELSE LET w == Structs(e.cf, e.filt) IN
       FirstOf(<<SameStructs(e.got, w)>> \o
               (IF e.design THEN <<SameLists(e.lists, [i \in 1 .. Len(w) |-> w[i].all]), Is(NoDups(e.all) /\ Set(e.all) = UNION {Set(w[i].all) : i \in 1 .. Len(w)}, "circuits that need data")>> ELSE <<>>))
Design1(e) ==
  IF e.raised THEN "failed"
  ELSE LET S == objs[e.s]
           w == [i \in 1 .. Len(S.Ls) |-> Truncated(S, SubSeq(S.Ls, 1, i), S.germs, S.preps, S.effs, S.rows, S.cols, NONE)] IN
       FirstOf(<<SameLists(e.lists, [i \in 1 .. Len(w) |-> w[i].all]), Is(NoDups(e.all) /\ Set(e.all) = UNION {Set(w[i].all) : i \in 1 .. Len(w)}, "circuits that need data")>>)
\* loops over the variables in the order given, the last fastest; terms: sequence of <<variable, power>>
Made(e) ==
  LET vals == e.vals
      RECURSIVE Loop(_, _)
      Loop(vs, env) == IF vs = <<>> THEN <<Flat([i \in 1 .. Len(e.terms) |-> Times(env[e.terms[i][1]], e.terms[i][2])])>>
                       ELSE Flat([i \in 1 .. Len(vals[Head(vs)]) |-> Loop(Tail(vs), [env EXCEPT ![Head(vs)] = vals[Head(vs)][i]])])
  IN Is(e.got = Loop(e.order, [v \in 1 .. Len(vals) |-> <<>>]), "list made from expressions")
Estimable(e) ==
  LET p == e.preps[1]  f == e.effs[1]
      Cand == {SubSeq(c, Len(p) + 1, Len(c) - Len(f)) : c \in {c \in Set(e.has) : Len(c) >= Len(p) + Len(f) /\ SubSeq(c, 1, Len(p)) = p /\ SubSeq(c, Len(c) - Len(f) + 1, Len(c)) = f}}
  IN Is(NoDups(e.got) /\ Set(e.got) = {r \in Cand : \A i \in 1 .. Len(e.preps), j \in 1 .. Len(e.effs) : e.preps[i] \o r \o e.effs[j] \in Set(e.has)}, "what LGST can estimate")
Judge(e) ==
  IF e.op = "structs" THEN Design(e)
  ELSE IF e.raised THEN "failed"
  ELSE CASE e.op = "lists" -> SameLists(e.got, Lists(e.cf))
    [] e.op = "expl" -> SameLists(<<e.got>>, <<LET w == Lists(e.cf) IN w[Len(w)]>>)
    [] e.op = "elists" -> SameLists(e.got, ELists(e.cf))
    [] e.op = "eexpl" -> SameLists(<<e.got>>, <<LET w == ELists(e.cf) IN w[Len(w)]>>)
    [] e.op = "lgst" -> SameLists(<<e.got>>, <<Lgst(e.preps, e.effs, e.ops)>>)
    [] e.op = "keep" -> Kept(e)
    [] e.op = "neck" -> Is(Necklaces(e.got, e.n, e.L), "circuits up to powers and cycles")
    [] e.op = "allc" -> Is(NoDups(e.got) /\ Set(e.got) = AllWords(e.n, e.lo, e.hi), "all circuits")
    [] e.op = "part" -> Is(e.got = [i \in 1 .. Len(e.c) + 1 |-> SubSeq(e.c, 1, i - 1)], "beginnings of a circuit")
    [] e.op = "trans" -> Is(e.got = [i \in 1 .. Len(e.cs) |-> Translate(e.cs[i], e.al)], "translation")
    [] e.op = "compose" -> Is(\A i \in 1 .. Len(e.got) : e.got[i] = Translate(Translate(<<i>>, e.al), e.al2), "composition of aliases")
    [] e.op = "manip" -> Is(e.got = [i \in 1 .. Len(e.cs) |-> Manip(e.cs[i], e.rules)], "replacement")
    [] e.op = "reps" -> Is(e.got = <<Times(e.c, e.L), Whole(e.c, e.L), Cut(e.c, e.L), Left(e.c, e.L)>> /\ e.count = Reps(e.c, e.L), "repetition")
    [] e.op = "made" -> Made(e)
    [] e.op = "est" -> Estimable(e)
    [] e.op = "ldesign" -> Is(e.lists = e.got /\ NoDups(e.all) /\ Set(e.all) = UNION {Set(e.lists[i]) : i \in 1 .. Len(e.lists)}, "circuits that need data")
LIVE == {"new", "addp", "addu", "copy", "trunc", "ren", "exp"}
Verdict(e, A) == IF e.op \in LIVE THEN Live(e, A) ELSE IF e.op = "design1" THEN Design1(e) ELSE Judge(e)
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ bad = "" /\ objs = <<>>
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]  A == After(e)  v == Verdict(e, A) IN
             /\ bad' = v /\ objs' = A
             /\ IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v,
                  want |-> IF e.op \in LIVE THEN [o |-> A] ELSE [o |-> CASE e.op \in {"lists", "expl"} -> Lists(e.cf) [] e.op \in {"elists", "eexpl"} -> ELists(e.cf)
                             [] e.op = "manip" -> <<[i \in 1 .. Len(e.cs) |-> Manip(e.cs[i], e.rules)]>> [] OTHER -> <<>>]]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
