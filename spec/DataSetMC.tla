---------------------------- MODULE DataSetMC ----------------------------
(* Exhaustive exploration of DataSet.tla over small constants, and the enumeration of    *)
(* histories that are replayed on the real code.                                          *)
EXTENDS DataSet, Json
CONSTANTS Slots, Depth, Menu, Emit
VARIABLES dss, hist
vars == <<dss, hist>>

Cs == {"A", "G"}
Aux == "-"
Adds(s) ==
  [op : {"addc"}, s : {s}, c : Cs, cnts : {<<<<0, 4>>>>, <<<<0, 8>>, <<3, 4>>>>, <<<<3, 0>>>>}, ordered : {TRUE}, zero : {TRUE, FALSE}, aux : {"-"}]
  \cup [op : {"addraw"}, s : {s}, c : {"A"}, d : {<<<<3, 0, 4>>, <<0, 2, 4>>>>, <<<<0, 0, 4>>, <<0, 0, 4>>>>}, hasr : {FALSE, TRUE}, over : {TRUE, FALSE}, zero : {TRUE}, aux : {"-", "a1"}]
Edits(s) ==
  [op : {"remove"}, s : {s}, keys : {<<<<"A", 0>>>>, <<<<"A", 1>>, <<"A", 1>>>>}, miss : {"raise", "ignore"}]
  \cup [op : {"done"}, s : {s}]
  \cup [op : {"buildreps"}, s : {s}]
Row1Ops(s) == IF Has(dss[s], "A", 0) THEN
       [op : {"addaux"}, s : {s}, c : {"A"}, occ : {0}, aux : {"a2"}]
       \cup [op : {"scale"}, s : {s}, c : {"A"}, occ : {0}, num : {2}, den : {1}]
       \cup (IF RowOf(dss[s], "A", 0).d # <<>> /\ ~dss[s].static /\ In(3, dss[s].ols) THEN [op : {"setitem"}, s : {s}, c : {"A"}, occ : {0}, i : {1}, o : {3}, t : {0}, n : {4}] ELSE {})
   ELSE {}
News(s) == [op : {"new"}, s : {s}, pol : {"agg", "over", "keep"}, ols : {<<>>, <<3>>}]
Derives(s, t) ==
  [op : {"copy", "copyns"}, s : {s}, s2 : {t}]
  \cup [op : {"trunc"}, s : {s}, s2 : {t}, keys : {<<<<"A", 0>>>>, <<<<"G", 0>>, <<"A", 0>>>>}, miss : {"raise", "ignore"}]
  \cup [op : {"slice"}, s : {s}, s2 : {t}, a : {0}, b : {1, 20}, agg : {-1, 3}]
  \cup [op : {"merge"}, s : {s}, s2 : {t}, m : {<<<<7, <<0, 3>>>>>>, <<<<3, <<0>>>>, <<0, <<3>>>>>>}, zero : {TRUE, FALSE}]
  \cup [op : {"rename"}, s : {s}, m : {<<<<0, 7>>>>, <<<<0, 3>>, <<3, 0>>>>}]
Processes(s) == {[op |-> "process", s |-> s, m |-> Map(dss[s].rows, LAMBDA r : <<r.c, r.occ, to>>), agg |-> a] : to \in {"A", "B", ""}, a \in BOOLEAN}
Stores(s, t) == [op : {"store"}, s : {s}, s2 : {t}, route : {"save", "savegz", "pickle", "deepcopy", "json", "msgpack", "ctor"}
                                                         \cup (IF dss[s].ols # <<>> /\ (dss[s].pol = "keep" \/ \A i \in 1..Len(dss[s].rows) : dss[s].rows[i].occ = 0)
                                                               THEN {"text", "textx", "td"} ELSE {})]

OnSlot(s) ==
  (IF dss[s].live THEN
     (IF "add" \in Menu THEN Adds(s) ELSE {}) \cup (IF "edit" \in Menu THEN Edits(s) \cup Row1Ops(s) ELSE {})
     \cup (IF "small" \in Menu THEN
             {[op |-> "addraw", s |-> s, c |-> c, d |-> d, hasr |-> h, over |-> FALSE, zero |-> TRUE, aux |-> "a1"]
                 : c \in Cs, d \in {<<<<3, 0, 4>>, <<0, 2, 4>>>>, <<<<0, 0, 4>>>>}, h \in {hist[1].pol # "agg"}}
             \cup {[op |-> "done", s |-> s]} ELSE {})
     \cup (IF "derive" \in Menu THEN UNION {Derives(s, t) : t \in Slots \ {s}} \cup Row1Ops(s) \cup (IF ~dss[s].static THEN Processes(s) ELSE {}) ELSE {})
     \cup (IF "store" \in Menu THEN UNION {Stores(s, t) : t \in Slots \ {s}} ELSE {})
   ELSE {})
Events == IF hist = <<>> THEN News(1) ELSE UNION {OnSlot(s) : s \in Slots}

Init == dss = [s \in Slots |-> Dead] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Events : LET r == Step(dss, e) IN dss' = r.pool /\ hist' = Append(hist, e)
        /\ Emit /\ Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

LastEv == hist'[Len(hist')]
IsolatedProp == [][Isolated(dss, LastEv, dss')]_vars
FrozenProp   == [][Frozen(dss, LastEv, dss')]_vars
RejectedProp == [][~Step(dss, LastEv).ok => dss' = dss]_vars
AllWellFormed == \A s \in Slots : WellFormed(dss[s])
(* independent facts about reads and derivations *)
Conservation == \A s \in Slots : LET ds == dss[s] IN ds.live =>
  /\ \A i \in 1..Len(ds.rows) : LET d == ds.rows[i].d IN
       /\ SumOf(Map(Counts(ds, d), LAMBDA x : x[2])) = Total(d)
       /\ SumOf(Map(AllCounts(ds, d), LAMBDA x : x[2])) = Total(d)
       /\ SumOf(Map(RepSeries(d), LAMBDA x : x[2])) = Total(d)
       /\ SumOf(Map(Series(d), LAMBDA x : SumOf(Map(x[2], LAMBDA y : y[2])))) = Total(d)
       /\ SumOf(Map(ds.ols, LAMBDA o : SumOf(SeriesOf(d, o)))) = Total(d)
       /\ Total(Canon(d)) = Total(d)
       /\ Flat(Groups(d)) = d
  /\ GrandTotal(TimeSlice(ds, 0, 2, -1)) + GrandTotal(TimeSlice(ds, 2, 100, -1)) = GrandTotal(ds)
  /\ GrandTotal(TimeSlice(ds, 0, 100, 3)) = GrandTotal(ds)
  /\ GrandTotal(MergeOutcomes(ds, <<<<7, <<0, 3, 7>>>>>>, FALSE)) = GrandTotal(ds)
  /\ Truncate(ds, Keys(ds)).rows = Map(ds.rows, LAMBDA r : Drop(r))
  /\ Rename(Rename(ds, <<<<0, 5>>>>), <<<<5, 0>>>>) = ds
=============================================================================
