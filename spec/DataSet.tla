------------------------------ MODULE DataSet ------------------------------
(* Data sets: a pool of data sets, the operations that fill, freeze, derive  *)
(* and store them, and what every read must return.                          *)
(*                                                                           *)
(* A data set is  [live, rows, ols, static, pol, reps]                       *)
(*   rows   : sequence of [c, occ, d, aux]; c names a circuit, occ is its    *)
(*            occurrence (0 = first), d is the sequence of <<o,t,n>> records *)
(*            (outcome, time, repetitions) and aux an auxiliary-info token   *)
(*   ols    : the outcome labels in order; static : frozen                   *)
(*   pol    : collision policy "agg" | "over" | "keep"                       *)
(*   reps   : whether repetition counts are kept (if not, every n is ONE)    *)
(* Units: times are in halves, repetitions in quarters, so ONE = 4.          *)
(* Outcomes are numbered in the order in which their labels sort.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ONE == 4
TU  == 2          \* one unit of time

Dead == [live |-> FALSE, rows |-> <<>>, ols |-> <<>>, static |-> FALSE, pol |-> "agg", reps |-> FALSE]
Fresh(pol, ols) == [live |-> TRUE, rows |-> <<>>, ols |-> ols, static |-> FALSE, pol |-> pol, reps |-> FALSE]

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxOf(Tail(s)))
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Filter(s, P(_)) == SelectSeq(s, P)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s)-1)) x == s[Len(s)] IN IF In(x, r) THEN r ELSE Append(r, x)
IndexOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x

Find(ds, c, occ) == LET I == {i \in 1..Len(ds.rows) : ds.rows[i].c = c /\ ds.rows[i].occ = occ}
                    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(ds, c, occ) == Find(ds, c, occ) # 0
RowOf(ds, c, occ) == ds.rows[Find(ds, c, occ)]

RECURSIVE FreeOcc(_, _, _)
FreeOcc(ds, c, k) == IF Has(ds, c, k) THEN FreeOcc(ds, c, k+1) ELSE k

Outs(d) == Map(d, LAMBDA x : x[1])
AddOls(ols, d) == Dedup(ols \o Outs(d))

(* ------------------------------------------------------------ additions *)
(* items d given for circuit c; hasr: repetition counts were given; over: replace an existing row *)
(* aux "-" means: no auxiliary information given *)
AddRaw(ds, c, occ0, d, hasr, over, zero, aux) ==
  LET occ  == IF ds.pol = "keep" /\ Has(ds, c, occ0) THEN FreeOcc(ds, c, 1) ELSE occ0
      kept == IF zero THEN d ELSE Filter(d, LAMBDA x : x[3] # 0)
      i    == Find(ds, c, occ)
      old  == IF i = 0 THEN [c |-> c, occ |-> occ, d |-> <<>>, aux |-> ""] ELSE ds.rows[i]
      new  == [old EXCEPT !.d = IF over THEN kept ELSE old.d \o kept,
                          !.aux = IF aux = "-" THEN old.aux ELSE aux]
  IN [ds EXCEPT !.rows = IF i = 0 THEN Append(ds.rows, new) ELSE [ds.rows EXCEPT ![i] = new],
                !.ols  = AddOls(ds.ols, d),
                !.reps = ds.reps \/ hasr]

(* a dictionary of counts <<o,n>>...: aggregate -> appended at the next whole time, otherwise the row is (re)set at time 0 *)
AddCounts(ds, c, occ0, cnts, zero, aux) ==
  LET agg == ds.pol = "agg" /\ Has(ds, c, occ0)
      r   == RowOf(ds, c, occ0)
      t   == IF agg /\ r.d # <<>> THEN ((MaxOf(Map(r.d, LAMBDA x : x[2])) \div TU) + 1) * TU ELSE 0
      d   == Map(cnts, LAMBDA x : <<x[1], t, x[2]>>)
  IN AddRaw(ds, c, occ0, d, TRUE, ~agg, zero, aux)

RECURSIVE AddAll(_, _, _)   \* add the rows of another data set, appending
AddAll(ds, rows, hasr) == IF rows = <<>> THEN ds
   ELSE AddAll(AddRaw(ds, rows[1].c, rows[1].occ, rows[1].d, hasr, FALSE, TRUE, "-"), Tail(rows), hasr)

RemoveKeys(ds, K) == [ds EXCEPT !.rows = Filter(ds.rows, LAMBDA r : <<r.c, r.occ>> \notin K)]

(* ------------------------------------------------------------ derivations *)
Drop(r) == [r EXCEPT !.aux = ""]
RowsFor(ds, keys) == LET ks == Filter(Dedup(keys), LAMBDA k : Has(ds, k[1], k[2]))
                     IN Map(ks, LAMBDA k : Drop(RowOf(ds, k[1], k[2])))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Truncate(ds, keys) ==
  LET rows == RowsFor(ds, keys)
      used == Flat(Map(rows, LAMBDA r : Outs(r.d)))
  IN [live |-> TRUE, rows |-> rows, static |-> ds.static, pol |-> "agg",
      reps |-> ds.reps /\ (ds.static \/ rows # <<>>),
      ols |-> IF ds.static THEN Filter(ds.ols, LAMBDA o : In(o, used)) ELSE Dedup(used)]

CountOf(d, o) == SumOf(Map(Filter(d, LAMBDA x : x[1] = o), LAMBDA x : x[3]))
TimeSlice(ds, a, b, agg) ==      \* agg = -1: keep times
  LET inw(d) == Filter(d, LAMBDA x : a <= x[2] /\ x[2] < b)
      f(d) == IF agg = -1 THEN inw(d)
              ELSE Map(Filter(ds.ols, LAMBDA o : CountOf(inw(d), o) > 0), LAMBDA o : <<o, agg, CountOf(inw(d), o)>>)
  IN [live |-> TRUE, static |-> TRUE, pol |-> "agg", ols |-> ds.ols, reps |-> ds.rows # <<>>,
      rows |-> Map(ds.rows, LAMBDA r : [Drop(r) EXCEPT !.d = f(r.d)])]

(* maximal blocks of consecutive records with one time *)
RECURSIVE Groups(_)
Groups(d) == IF d = <<>> THEN <<>>
             ELSE LET g == Groups(SubSeq(d, 1, Len(d)-1)) x == d[Len(d)]
                  IN IF g # <<>> /\ g[Len(g)][1][2] = x[2]
                     THEN [g EXCEPT ![Len(g)] = Append(@, x)] ELSE Append(g, <<x>>)
(* m: sequence of <<new outcome, <<old outcomes>>>> *)
MergeTo(m, o) == (CHOOSE i \in 1..Len(m) : In(o, m[i][2]))
Covers(ds, m) == \A i \in 1..Len(ds.ols) : \E j \in 1..Len(m) : In(ds.ols[i], m[j][2])
MergeOutcomes(ds, m, zero) ==
  LET news == SortSeq(Map(m, LAMBDA x : x[1]), <)
      ren(g) == Map(g, LAMBDA x : <<m[MergeTo(m, x[1])][1], x[2], x[3]>>)
      grp(g) == LET h == ren(g) IN
                IF zero THEN Map(news, LAMBDA o : <<o, g[1][2], CountOf(h, o)>>)
                ELSE Filter(Map(Dedup(Outs(h)), LAMBDA o : <<o, g[1][2], CountOf(h, o)>>), LAMBDA x : x[3] # 0)
  IN [live |-> TRUE, static |-> TRUE, pol |-> "agg", ols |-> news, reps |-> TRUE,
      rows |-> Map(ds.rows, LAMBDA r : [Drop(r) EXCEPT !.d = Flat(Map(Groups(r.d), grp))])]
ByOutcome(g) == SortSeq(g, LAMBDA x, y : x[1] < y[1])
(* the library-function form: same counts, outcomes in the order the new labels were given, auxiliary info kept *)
MergeOutcomesFn(ds, m, zero) ==
  LET r1 == MergeOutcomes(ds, m, zero)
      sortd(d) == Flat(Map(Groups(d), ByOutcome))
  IN [r1 EXCEPT !.ols = Map(m, LAMBDA x : x[1]), !.reps = ds.rows # <<>>,
                !.rows = [i \in 1..Len(@) |-> [@[i] EXCEPT !.d = sortd(@), !.aux = ds.rows[i].aux]]]

Rename(ds, m) == \* m: sequence of <<old, new>>; injective on the outcome labels
  LET f(o) == IF \E i \in 1..Len(m) : m[i][1] = o THEN m[CHOOSE i \in 1..Len(m) : m[i][1] = o][2] ELSE o
  IN [ds EXCEPT !.ols = Map(@, f), !.rows = Map(@, LAMBDA r : [r EXCEPT !.d = Map(@, LAMBDA x : <<f(x[1]), x[2], x[3]>>)])]

(* m: sequence of <<old circuit, occ, new circuit>>; new circuit "" deletes.  aux of merged rows is left open ("*") *)
RECURSIVE ProcRows(_, _, _, _)
ProcRows(rows, m, agg, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET r  == rows[1]
           to == m[CHOOSE i \in 1..Len(m) : m[i][1] = r.c /\ m[i][2] = r.occ][3]
           j  == {i \in 1..Len(acc) : acc[i].c = to /\ acc[i].occ = 0}
           k  == CHOOSE i \in j : TRUE
       IN ProcRows(Tail(rows), m, agg,
            IF to = "" THEN acc
            ELSE IF j = {} THEN Append(acc, [r EXCEPT !.c = to, !.occ = 0])
            ELSE [acc EXCEPT ![k].d = IF agg THEN @ \o r.d ELSE r.d, ![k].aux = "*"])
Process(ds, m, agg) == [ds EXCEPT !.rows = ProcRows(ds.rows, m, agg, <<>>)]

(* keep only the first k time steps of every row, k the least number of steps of any row *)
TrimTimes(ds) ==
  LET k == LET ns == Map(ds.rows, LAMBDA r : Len(Groups(r.d))) IN 0 - MaxOf(Map(ns, LAMBDA x : 0 - x))
      cut(d) == Flat(Map(SubSeq(Groups(d), 1, k), ByOutcome))
  IN [ds EXCEPT !.static = TRUE, !.rows = Map(@, LAMBDA r : [r EXCEPT !.d = cut(@)])]

(* per-qubit marginalisation.  Outcome numbers 0 1 2 3 4 5 stand for the strings 0 00 01 1 10 11 *)
Chars(o) == CASE o = 0 -> <<0>> [] o = 3 -> <<1>> [] o = 1 -> <<0, 0>> [] o = 2 -> <<0, 1>> [] o = 4 -> <<1, 0>> [] o = 5 -> <<1, 1>>
OfChars(c) == CHOOSE o \in 0..5 : Chars(o) = c
Kept(o, pos) == OfChars(Map(pos, LAMBDA i : Chars(o)[i + 1]))
MarginalMap(ols, pos) == LET news == Dedup(Map(ols, LAMBDA o : Kept(o, pos)))
                         IN Map(news, LAMBDA n : <<n, Filter(ols, LAMBDA o : Kept(o, pos) = n)>>)
(* a circuit is <<name, lines, layers>>, a layer a sequence of <<gate, lines>>.  Gates on other lines are left out; a gate on
   both kinds of lines makes the circuit unusable (name ""); kept lines are renamed from keep to new *)
Relabel(q, keep, new) == new[IndexOf(q, keep)]
Straddles(g, keep) == (\E i \in 1..Len(g[2]) : In(g[2][i], keep)) /\ (\E i \in 1..Len(g[2]) : ~In(g[2][i], keep))
FilteredName(c, keep, new, tab) ==
  LET x == tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = c]
      lay(y) == Map(Filter(y, LAMBDA g : \A i \in 1..Len(g[2]) : In(g[2][i], keep)), LAMBDA g : <<g[1], Map(g[2], LAMBDA q : Relabel(q, keep, new))>>)
      img == Map(x[3], lay)
      J == {i \in 1..Len(tab) : tab[i][2] = new /\ tab[i][3] = img}
  IN IF \E i \in 1..Len(x[3]) : \E j \in 1..Len(x[3][i]) : Straddles(x[3][i][j], keep) THEN ""
     ELSE IF J = {} THEN "no such circuit" ELSE tab[CHOOSE i \in J : TRUE][1]

(* ------------------------------------------------------------ storage *)
(* text form with one line of counts per circuit: times are aggregated, rows without counts are not kept *)
Present(ds, d) == Filter(ds.ols, LAMBDA o : In(o, Outs(d)))
TextRow(ds, d) == Map(Present(ds, d), LAMBDA o : <<o, CountOf(d, o)>>)
ZeroRow(ds, d) == \A i \in 1..Len(d) : CountOf(d, d[i][1]) = 0
RECURSIVE TextAdd(_, _, _)
TextAdd(acc, ds, rows) ==
  IF rows = <<>> THEN acc
  ELSE LET r == rows[1] k == IF ds.pol = "keep" THEN 0 ELSE r.occ IN
       TextAdd(IF ZeroRow(ds, r.d) THEN acc ELSE AddCounts(acc, r.c, k, TextRow(ds, r.d), TRUE, r.aux), ds, Tail(rows))
TextLoad(ds, fixed) ==
  [TextAdd(Fresh(ds.pol, IF fixed THEN ds.ols ELSE <<>>), ds, ds.rows) EXCEPT !.static = TRUE]
(* text form with time stamps *)
RECURSIVE TdAdd(_, _, _)
TdAdd(acc, ds, rows) ==
  IF rows = <<>> THEN acc
  ELSE LET r == rows[1] k == IF ds.pol = "keep" THEN 0 ELSE r.occ IN
       TdAdd(AddRaw(acc, r.c, k, r.d, ds.reps, TRUE, TRUE, r.aux), ds, Tail(rows))
TdLoad(ds) == [TdAdd(Fresh(ds.pol, <<>>), ds, ds.rows) EXCEPT !.static = TRUE]

(* ------------------------------------------------------------ reads *)
Sorted(d) == \A i \in 1..(Len(d)-1) : d[i][2] <= d[i+1][2]
Counts(ds, d) == Map(Filter(ds.ols, LAMBDA o : In(o, Outs(d))), LAMBDA o : <<o, CountOf(d, o)>>)
AllCounts(ds, d) == Map(ds.ols, LAMBDA o : <<o, CountOf(d, o)>>)
Total(d) == SumOf(Map(d, LAMBDA x : x[3]))
Times(d) == Map(Groups(d), LAMBDA g : g[1][2])
RepSeries(d) == Map(Groups(d), LAMBDA g : <<g[1][2], Total(g)>>)
(* per time, the counts in order of first appearance *)
Series(d) == Map(Groups(d), LAMBDA g : <<g[1][2], Map(Dedup(Outs(g)), LAMBDA o : <<o, CountOf(g, o)>>)>>)
SeriesOf(d, o) == Map(Groups(d), LAMBDA g : CountOf(g, o))
Constant(d) == LET s == RepSeries(d) IN \A i \in 1..Len(s) : s[i][2] = s[1][2]
AtTime(ds, d, t) == Counts(ds, Filter(d, LAMBDA x : x[2] = t))
Whole(d) == \A i \in 1..Len(d) : d[i][3] % ONE = 0
RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Rep(x, n-1)
Expanded(d) == Flat(Map(d, LAMBDA x : Rep(<<x[1], x[2]>>, x[3] \div ONE)))
(* time series of one outcome (or of all: o = -1): only times at which it was recorded *)
Only(d, o) == IF o = -1 THEN d ELSE Filter(d, LAMBDA x : x[1] = o)
OneSeries(d, o) == RepSeries(Only(d, o))
SampledSeries(d, o, ts) == Map(ts, LAMBDA t : <<t, Total(Filter(Only(d, o), LAMBDA x : x[2] = t))>>)
Dof(ds, all, agg) ==
  SumOf(Map(ds.rows, LAMBDA r :
    IF agg THEN (IF all THEN Len(ds.ols) ELSE Len(Dedup(Outs(r.d)))) - 1
    ELSE SumOf(Map(Groups(r.d), LAMBDA g : (IF all THEN Len(ds.ols) ELSE Len(Dedup(Outs(g)))) - 1))))
AllFilled(ds) == ds.rows # <<>> /\ \A i \in 1..Len(ds.rows) : ds.rows[i].d # <<>>
Trivial(ds) == \A i \in 1..Len(ds.rows) : \A j \in 1..Len(ds.rows[i].d) : ds.rows[i].d[j][2] = 0
ConstTotals(ds) == \A i \in 1..Len(ds.rows) : Total(ds.rows[i].d) = Total(ds.rows[1].d)
ConstPerTime(ds) == \A i \in 1..Len(ds.rows) : Constant(ds.rows[i].d)
                      /\ RepSeries(ds.rows[i].d)[1][2] = RepSeries(ds.rows[1].d)[1][2]

(* ------------------------------------------------------------ operations *)
(* multi-data-sets live in the same pool of slots: [live, multi, sets, aux, keys]
   keys: the <<c,occ>> in order; sets: sequence of <<name, rows, ols, pol>>, rows in the order of keys;
   aux: the tokens, in the order of keys.  The records of a member are put in
   order of time and outcome, and those with zero repetitions are left out (members are padded with them). *)
Multi(x) == "multi" \in DOMAIN x
EmptyMulti == [live |-> TRUE, multi |-> TRUE, keys |-> <<>>, sets |-> <<>>, aux |-> <<>>]
(* the counts <<o, t, n>> sorted by time, then outcome *)
TimesOf(d) == {d[i][2] : i \in 1..Len(d)}
OutsOf(d)  == {d[i][1] : i \in 1..Len(d)}
Canon(d) == LET ts == SetToSortSeq(TimesOf(d), <)
                os(t) == SetToSortSeq(OutsOf(Filter(d, LAMBDA x : x[2] = t)), <)
                at(t) == Map(os(t), LAMBDA o : <<o, t, CountOf(Filter(d, LAMBDA x : x[2] = t), o)>>)
            IN Flat(Map(ts, at))
NonZero(d) == Filter(d, LAMBDA x : x[3] # 0)
Keys(ds) == Map(ds.rows, LAMBDA r : <<r.c, r.occ>>)
MergeAux(a, b) == IF a = "" THEN b ELSE IF b = "" \/ a = b THEN a ELSE "*"
MAdd(m, name, ds, noaux) ==
  LET first == m.sets = <<>>
      keys  == IF first THEN Keys(ds) ELSE m.keys
      rows  == Map(keys, LAMBDA k : Canon(NonZero(RowOf(ds, k[1], k[2]).d)))
      new   == <<name, rows, ds.pol>>
      have  == {i \in 1..Len(m.sets) : m.sets[i][1] = name}
  IN [m EXCEPT !.keys = keys,
               !.sets = IF have = {} THEN Append(@, new) ELSE [@ EXCEPT ![CHOOSE i \in have : TRUE] = new],
               !.aux = [i \in 1..Len(keys) |-> LET o == IF first THEN "" ELSE m.aux[i] IN
                          IF noaux THEN o ELSE MergeAux(o, RowOf(ds, keys[i][1], keys[i][2]).aux)]]
Together(m, names) ==
  LET idx(nm) == CHOOSE i \in 1..Len(m.sets) : m.sets[i][1] = nm
  IN [k \in 1..Len(m.keys) |-> Canon(Flat(Map(names, LAMBDA nm : m.sets[idx(nm)][2][k])))]
(* the text form aggregates times and drops circuits without counts *)
MText(m) ==
  LET keep == Filter([k \in 1..Len(m.keys) |-> k], LAMBDA k : \E i \in 1..Len(m.sets) : m.sets[i][2][k] # <<>>)
      f(d) == Canon(Map(d, LAMBDA x : <<x[1], 0, x[3]>>))
  IN [m EXCEPT !.keys = Map(keep, LAMBDA k : m.keys[k]), !.aux = Map(keep, LAMBDA k : m.aux[k]),
               !.sets = Map(@, LAMBDA x : <<x[1], Map(keep, LAMBDA k : f(x[2][k])), "agg">>)]
Conforms(a, b) == {<<a.rows[i].c, a.rows[i].occ>> : i \in 1..Len(a.rows)} = {<<b.rows[i].c, b.rows[i].occ>> : i \in 1..Len(b.rows)}

Bad(p)     == [ok |-> FALSE, pool |-> p]
Set(p, s, ds) == [ok |-> TRUE, pool |-> [p EXCEPT ![s] = ds]]

Step(p, e) ==
  LET ds == p[e.s] IN
  CASE e.op = "new"    -> Set(p, e.s, Fresh(e.pol, e.ols))
    [] e.op = "addc"   -> IF ds.static THEN Bad(p) ELSE Set(p, e.s, AddCounts(ds, e.c, 0, e.cnts, e.zero, e.aux))
    [] e.op = "addraw" -> IF ds.static THEN Bad(p) ELSE Set(p, e.s, AddRaw(ds, e.c, 0, e.d, e.hasr, e.over, e.zero, e.aux))
    [] e.op = "setrow" -> IF ds.static THEN Bad(p)      \* explicit occurrence, current policy
                          ELSE IF e.dict THEN Set(p, e.s, AddCounts(ds, e.c, e.occ, e.cnts, TRUE, "-"))
                          ELSE Set(p, e.s, AddRaw(ds, e.c, e.occ, e.d, e.hasr, TRUE, TRUE, "-"))
    [] e.op = "assign" -> IF ds.static THEN Bad(p)      \* ds[c] = ...: overwrites
                          ELSE IF e.dict THEN Set(p, e.s, [AddCounts([ds EXCEPT !.pol = "over"], e.c, 0, e.cnts, TRUE, "-") EXCEPT !.pol = ds.pol])
                          ELSE Set(p, e.s, [AddRaw([ds EXCEPT !.pol = "over"], e.c, 0, e.d, e.hasr, TRUE, TRUE, "-") EXCEPT !.pol = ds.pol])
    [] e.op = "scale"  -> IF ds.static \/ ~ds.reps THEN Bad(p)
                          ELSE Set(p, e.s, [ds EXCEPT !.rows[Find(ds, e.c, e.occ)].d = Map(@, LAMBDA x : <<x[1], x[2], (x[3] * e.num) \div e.den>>)])
    [] e.op = "buildreps" -> IF ds.static /\ ~ds.reps THEN Bad(p) ELSE Set(p, e.s, [ds EXCEPT !.reps = TRUE])
    [] e.op = "setcount" ->   \* row[o] = n : first record of the outcome
         LET i == Find(ds, e.c, e.occ) d == ds.rows[i].d
             J == {j \in 1..Len(d) : d[j][1] = e.o}
             triv == \A j \in 1..Len(d) : d[j][2] = d[1][2]
         IN IF ds.static \/ ~triv \/ ~ds.reps \/ J = {} THEN Bad(p)
            ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k IN Set(p, e.s, [ds EXCEPT !.rows[i].d[j][3] = e.n])
    [] e.op = "setitem" ->    \* row[i] = (o, t, n)
         LET i == Find(ds, e.c, e.occ) IN
         IF ds.static \/ ~In(e.o, ds.ols) \/ (~ds.reps /\ e.n # ONE) THEN Bad(p)
         ELSE Set(p, e.s, [ds EXCEPT !.rows[i].d[e.i] = <<e.o, e.t, e.n>>])
    [] e.op = "addaux" -> Set(p, e.s, [ds EXCEPT !.rows[Find(ds, e.c, e.occ)].aux = e.aux])
    [] e.op = "addfrom" -> IF ds.static THEN Bad(p) ELSE Set(p, e.s, AddAll(ds, p[e.s2].rows, p[e.s2].reps))
    [] e.op = "remove" ->
         LET K == {<<e.keys[i][1], e.keys[i][2]>> : i \in 1..Len(e.keys)}
             miss == \E i \in 1..Len(e.keys) : ~Has(ds, e.keys[i][1], e.keys[i][2])
         IN IF ds.static \/ (miss /\ e.miss = "raise") THEN Bad(p) ELSE Set(p, e.s, RemoveKeys(ds, K))
    [] e.op = "done"   -> Set(p, e.s, [ds EXCEPT !.static = TRUE])
    [] e.op = "rename" -> Set(p, e.s, Rename(ds, e.m))
    [] e.op = "process" -> IF ds.static THEN Bad(p) ELSE Set(p, e.s, Process(ds, e.m, e.agg))
    [] e.op = "copy"   -> Set(p, e.s2, ds)             \* frozen data sets: harness checks it is the same data set
    [] e.op = "copyns" -> Set(p, e.s2, [ds EXCEPT !.static = FALSE])
    [] e.op = "trunc"  ->
         LET miss == \E i \in 1..Len(e.keys) : ~Has(ds, e.keys[i][1], e.keys[i][2])
         IN IF miss /\ e.miss = "raise" THEN Bad(p) ELSE Set(p, e.s2, Truncate(ds, e.keys))
    [] e.op = "slice"  -> Set(p, e.s2, TimeSlice(ds, e.a, e.b, e.agg))
    [] e.op = "merge"  -> IF ~Covers(ds, e.m) THEN Bad(p) ELSE Set(p, e.s2, MergeOutcomes(ds, e.m, e.zero))
    [] e.op = "mergefn" -> IF ~Covers(ds, e.m) THEN Bad(p) ELSE Set(p, e.s2, MergeOutcomesFn(ds, e.m, e.zero))
    [] e.op = "filter" -> \* per-qubit marginalisation: outcomes merged, then circuits mapped with aggregation
         LET m == MarginalMap(ds.ols, e.pos) cm == Map(ds.rows, LAMBDA r : <<r.c, r.occ, FilteredName(r.c, e.keep, e.new, e.tab)>>)
             r0 == MergeOutcomes(ds, m, e.zero)
             r == IF e.circ THEN Process(r0, cm, TRUE) ELSE r0
         IN Set(p, e.s2, [r EXCEPT !.static = TRUE])
    [] e.op = "trim"   -> Set(p, e.s2, TrimTimes(ds))
    [] e.op = "store"  -> Set(p, e.s2, CASE e.route \in {"save", "savegz", "pickle", "deepcopy", "json", "msgpack", "ctor"} -> ds
                                         [] e.route = "text" -> TextLoad(ds, TRUE)
                                         [] e.route = "textx" -> TextLoad(ds, FALSE)
                                         [] e.route = "td" -> TdLoad(ds))
    [] e.op = "mnew"   -> Set(p, e.s, EmptyMulti)
    [] e.op = "madd"   ->
         LET m == p[e.s2] IN
         IF ~ds.static \/ (m.keys # <<>> /\ {m.keys[i] : i \in 1..Len(m.keys)} # {Keys(ds)[i] : i \in 1..Len(ds.rows)}) THEN Bad(p)
         ELSE Set(p, e.s2, MAdd(m, e.name, ds, e.noaux))
    [] e.op = "maux"   -> Set(p, e.s, [ds EXCEPT !.aux = [i \in 1..Len(@) |-> IF ds.keys[i] = <<e.c, e.occ>> THEN e.aux ELSE @[i]]])
    [] e.op = "mcopy"  -> Set(p, e.s2, ds)
    [] e.op = "mstore" -> Set(p, e.s2, IF e.route = "text" THEN MText(ds) ELSE ds)
    [] e.op = "free"   -> Set(p, e.s, Dead)
    [] OTHER           -> [ok |-> TRUE, pool |-> p]

(* ------------------------------------------------------------ properties *)
NoDups(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
WellFormed(ds) == IF Multi(ds) THEN NoDups(ds.keys) /\ Len(ds.aux) = Len(ds.keys) ELSE
  /\ NoDups(ds.ols)
  /\ NoDups(Map(ds.rows, LAMBDA r : <<r.c, r.occ>>))
  /\ \A i \in 1..Len(ds.rows) : \A j \in 1..Len(ds.rows[i].d) :
        /\ In(ds.rows[i].d[j][1], ds.ols)
        /\ (~ds.reps => ds.rows[i].d[j][3] = ONE)
Mutators == {"new", "addc", "addraw", "setrow", "assign", "scale", "buildreps", "setcount", "setitem", "addaux", "addfrom", "remove", "done", "rename", "process", "mnew", "maux", "free"}
Target(e) == IF e.op \in Mutators THEN e.s ELSE e.s2
(* an operation reaches its own data set only; what is frozen stays (renaming labels and notes excepted) *)
NoMulti(p, e) == ~Multi(p[e.s]) \/ e.op \in {"mnew", "new", "madd", "maux", "mcopy", "mstore", "mtogether", "free"}
Isolated(p, e, q) == \A s \in DOMAIN p : s # Target(e) => q[s] = p[s]
Frozen(p, e, q) == (p[Target(e)].live /\ ~Multi(p[Target(e)]) /\ p[Target(e)].static /\ e.op \in Mutators \ {"new", "mnew", "rename", "addaux", "free"}) => q[Target(e)] = p[Target(e)]
GrandTotal(ds) == SumOf(Map(ds.rows, LAMBDA r : Total(r.d)))
=============================================================================
