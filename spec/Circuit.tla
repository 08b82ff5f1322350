------------------------------ MODULE Circuit ------------------------------
(* Circuits as grids of gates over lines, their edits and transformations.  *)
(* A circuit: [lines: seq of line numbers, layers: seq of layers, st: is it *)
(* finished]; a layer: seq (read as a bag) of gates; a gate: [n: name, q:   *)
(* seq of lines (<<>> = all lines of the circuit), a: arguments, r: 0, b:   *)
(* <<>>]; a box (sub-circuit): r >= 1 repetitions, or r = -1 for none, of   *)
(* the layers b.  Line 0 is the anonymous line '*'.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rep(x, k) == [i \in 1..k |-> x]
IsBox(g) == g.r # 0
Reps(g) == IF g.r < 0 THEN 0 ELSE g.r
Gate(n, q, a) == [n |-> n, q |-> q, a |-> a, r |-> 0, b |-> <<>>]
GLines(c, g) == IF g.q = <<>> THEN Rg(c.lines) ELSE Rg(g.q)
Touch(c, g, L) == GLines(c, g) \cap L # {}
Within(c, g, L) == GLines(c, g) \subseteq L
RECURSIVE SameGate(_, _)
SameLayer(s, t) == /\ Len(s) = Len(t)
                   /\ s = t \/ \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : SameGate(s[i], s[j])}) = Cardinality({j \in 1..Len(t) : SameGate(s[i], t[j])})
SameLayers(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameLayer(x[i], y[i])
SameGate(g, h) == g = h \/ (g.n = h.n /\ g.q = h.q /\ g.a = h.a /\ g.r = h.r /\ SameLayers(g.b, h.b))
Same(c, d) == c.lines = d.lines /\ c.st = d.st /\ SameLayers(c.layers, d.layers)
(* ---- results of an operation ---- *)
Bad == [ok |-> FALSE]
Ok(c) == [ok |-> TRUE, c |-> c]
(* ---- edits of a block of layers and lines ---- *)
Norm(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1
LayIdx(c, lk, lay) == IF lk = "all" THEN [i \in 1..Len(c.layers) |-> i] ELSE [k \in 1..Len(lay) |-> Norm(lay[k], Len(c.layers))]
IdxOk(c, lk, lay) == \A k \in 1..Len(lay) : LayIdx(c, lk, lay)[k] \in 1..Len(c.layers)
LineSeq(c, nk, lines) == IF nk = "all" THEN c.lines ELSE lines
Straddled(c, I, L) == \E i \in I : \E g \in Rg(c.layers[i]) : Touch(c, g, L) /\ ~Within(c, g, L)
Cleared(c, I, L) == [c EXCEPT !.layers = [i \in 1..Len(@) |-> IF i \in I THEN SelectSeq(@[i], LAMBDA g : ~Touch(c, g, L)) ELSE @[i]]]
Clear(c, lk, lay, nk, lines, str) ==
  IF ~IdxOk(c, lk, lay) THEN Bad
  ELSE LET I == Rg(LayIdx(c, lk, lay)) L == Rg(LineSeq(c, nk, lines)) IN
       IF ~str /\ Straddled(c, I, L) THEN Bad ELSE Ok(Cleared(c, I, L))
Expl(lbls) == UNION {UNION {Rg(lbls[i][j].q) : j \in 1..Len(lbls[i])} : i \in 1..Len(lbls)}
Fill(layer, nk, lines) == [j \in 1..Len(layer) |-> IF nk = "seq" /\ layer[j].q = <<>> THEN [layer[j] EXCEPT !.q = lines] ELSE layer[j]]
Sorted(S) == SetToSortSeq(S, <)
SetLabels(c, lbls, lk, lay, nk, lines) ==
  LET n == Len(c.layers) idx == LayIdx(c, lk, lay) L == Rg(LineSeq(c, nk, lines)) x == Expl(lbls) IN
  IF (lk # "all" /\ lay = <<>>) \/ (nk # "all" /\ lines = <<>>) THEN Ok(c)
  ELSE IF lk # "all" /\ Len(idx) # Len(lbls) THEN Bad
  ELSE IF nk # "all" /\ ~(x \subseteq Rg(c.lines) /\ x \subseteq L) THEN Bad
  ELSE IF ~(L \subseteq Rg(c.lines)) \/ ~IdxOk(c, lk, lay) \/ Straddled(c, Rg(idx), L) THEN Bad
  ELSE LET m == IF lk = "all" /\ Len(lbls) > n THEN Len(lbls) ELSE n
           e == Cleared(c, Rg(idx), L)
           put(i) == IF lk = "all" THEN (IF i <= Len(lbls) THEN lbls[i] ELSE <<>>)
                     ELSE Flat([k \in 1..Len(idx) |-> IF idx[k] = i THEN lbls[k] ELSE <<>>])
       IN Ok([c EXCEPT !.lines = @ \o Sorted(x \ Rg(@)),
                       !.layers = [i \in 1..m |-> (IF i <= n THEN e.layers[i] ELSE <<>>) \o Fill(put(i), nk, lines)]])
Before(c, none, b) == IF none THEN Len(c.layers) ELSE IF b < 0 THEN Len(c.layers) + b ELSE b
InsIdle(c, none, before, k, nk, lines) ==
  LET n == Len(c.layers) b == Before(c, none, before) L == Rg(lines) IN
  IF b < 0 \/ b > n THEN Bad
  ELSE IF nk = "all" THEN Ok([c EXCEPT !.layers = SubSeq(@, 1, b) \o Rep(<<>>, k) \o SubSeq(@, b + 1, n)])
  ELSE IF Straddled(c, (b + 1)..n, L) THEN Bad
  ELSE LET stay(i) == IF i > n THEN <<>> ELSE SelectSeq(c.layers[i], LAMBDA g : ~Touch(c, g, L))
           move(i) == IF i <= b \/ i > n THEN <<>> ELSE SelectSeq(c.layers[i], LAMBDA g : Touch(c, g, L))
       IN Ok([c EXCEPT !.layers = [i \in 1..(n + k) |-> IF i <= b THEN @[i] ELSE stay(i) \o move(i - k)]])
InsLayers(c, lbls, none, before, nk, lines) ==
  LET r == InsIdle(c, none, before, Len(lbls), nk, lines) b == Before(c, none, before) IN
  IF ~r.ok THEN Bad ELSE SetLabels(r.c, lbls, "seq", [i \in 1..Len(lbls) |-> b + i - 1], nk, lines)
PutLines(ls, none, at, new) == IF none THEN ls \o new ELSE LET i == CHOOSE k \in 1..Len(ls) : ls[k] = at IN SubSeq(ls, 1, i - 1) \o new \o SubSeq(ls, i, Len(ls))
InsLinesOk(c, none, at, new) == none \/ at \in Rg(c.lines)
InsAsLines(c, lbls, none, before, lnone, at, new) ==
  LET b == IF none THEN 0 ELSE IF before < 0 THEN Len(c.layers) + before ELSE before
      more == b + Len(lbls) - Len(c.layers) IN
  IF Rg(new) \cap Rg(c.lines) # {} \/ ~InsLinesOk(c, lnone, at, new) THEN Bad
  ELSE SetLabels([c EXCEPT !.lines = PutLines(@, lnone, at, new), !.layers = @ \o Rep(<<>>, IF more > 0 THEN more ELSE 0)],
                 lbls, "seq", [i \in 1..Len(lbls) |-> b + i - 1], "seq", new)
DelLayers(c, lk, lay) ==
  IF ~IdxOk(c, lk, lay) THEN Bad
  ELSE LET I == Rg(LayIdx(c, lk, lay)) IN Ok([c EXCEPT !.layers = Flat([i \in 1..Len(@) |-> IF i \in I THEN <<>> ELSE <<@[i]>>])])
DelLines(c, lines, str) ==
  LET L == Rg(lines) hit(g) == g.q # <<>> /\ Rg(g.q) \cap L # {} IN
  IF ~str /\ \E i \in 1..Len(c.layers) : \E g \in Rg(c.layers[i]) : hit(g) /\ ~(Rg(g.q) \subseteq L) THEN Bad
  ELSE Ok([c EXCEPT !.lines = SelectSeq(@, LAMBDA x : x \notin L), !.layers = [i \in 1..Len(@) |-> SelectSeq(@[i], LAMBDA g : ~hit(g))]])
(* ---- idle lines ---- *)
Ignored(g, idle) == g.q = <<>> /\ g.a = "" /\ ~IsBox(g) /\ g.n \in idle
Acts(c, idle) == SelectSeq(Flat(c.layers), LAMBDA g : ~Ignored(g, idle))
AnyGlobal(c, idle) == \E g \in Rg(Acts(c, idle)) : g.q = <<>>
Idling(c, l, idle) == ~AnyGlobal(c, idle) /\ \A g \in Rg(Acts(c, idle)) : l \notin Rg(g.q)
IdleLines(c, idle) == SelectSeq(c.lines, LAMBDA l : Idling(c, l, idle))
DelIdleLines(c, idle) == [c EXCEPT !.lines = SelectSeq(@, LAMBDA l : ~Idling(c, l, idle))]
SetLines(c, value) ==
  LET gone == Rg(c.lines) \ Rg(value) busy == {l \in gone : ~Idling(c, l, {})} IN
  IF busy = {} THEN Ok([c EXCEPT !.lines = value])
  ELSE IF c.st THEN Bad
  ELSE LET r == DelLines(c, Sorted(busy), FALSE) IN IF r.ok THEN Ok([r.c EXCEPT !.lines = value]) ELSE Bad
(* ---- inserting circuits ---- *)
BoxOf(n, c, reps) == [n |-> n, q |-> IF c.lines = <<0>> THEN <<>> ELSE c.lines, a |-> "", r |-> IF reps = 0 THEN -1 ELSE reps, b |-> c.layers]
Block(c, I, L, strict) == [i \in 1..Len(I) |-> SelectSeq(c.layers[I[i]], LAMBDA g : IF strict THEN Within(c, g, L) ELSE Touch(c, g, L))]
InsCircuit(c, d, none, j) ==
  LET common == SelectSeq(d.lines, LAMBDA l : l \in Rg(c.lines)) IN
  IF \E l \in Rg(d.lines) \ Rg(c.lines) : ~Idling(d, l, {}) THEN Bad
  ELSE InsLayers(c, IF common = <<>> THEN <<>> ELSE Block(d, [i \in 1..Len(d.layers) |-> i], Rg(common), TRUE), none, j, "all", <<>>)
ReplaceLayer(c, d, j) ==
  LET n == Len(c.layers) i == Norm(j, n) IN
  IF i \notin 1..n THEN Bad
  ELSE LET r == InsLayers(c, d.layers, FALSE, i - 1, "all", <<>>) IN
       IF ~r.ok THEN Bad ELSE DelLayers(r.c, "seq", <<i - 1 + Len(d.layers)>>)
Tensor(c, d, order) ==
  LET r == InsAsLines(c, d.layers, TRUE, 0, TRUE, 0, d.lines) IN
  IF ~r.ok THEN Bad
  ELSE IF order = <<>> THEN r
  ELSE IF Rg(order) # Rg(r.c.lines) \/ Len(order) # Len(r.c.lines) THEN Bad ELSE Ok([r.c EXCEPT !.lines = order])
(* ---- renaming ---- *)
RECURSIVE MapGate(_, _)
MapLayers(ls, Op(_)) == [i \in 1..Len(ls) |-> [j \in 1..Len(ls[i]) |-> Op(ls[i][j])]]
Assoc(m, x) == LET k == {i \in 1..Len(m) : m[i][1] = x} IN IF k = {} THEN x ELSE m[CHOOSE i \in k : TRUE][2]
(* m: [n: list of name pairs, q: list of line pairs] *)
MapGate(m, g) == LET inner(h) == MapGate(m, h) IN
  [g EXCEPT !.n = IF IsBox(g) THEN @ ELSE Assoc(m.n, @), !.q = [i \in 1..Len(@) |-> Assoc(m.q, @[i])], !.b = MapLayers(@, inner)]
Rename(c, m) == LET op(g) == MapGate(m, g) IN [c EXCEPT !.lines = [i \in 1..Len(@) |-> Assoc(m.q, @[i])], !.layers = MapLayers(@, op)]
(* ---- transformations ---- *)
Reversed(c) == [c EXCEPT !.layers = Reverse(@)]
Serial(c) == [c EXCEPT !.st = TRUE, !.layers = Flat([i \in 1..Len(@) |-> IF @[i] = <<>> THEN <<<<>>>> ELSE [j \in 1..Len(@[i]) |-> <<@[i][j]>>]])]
Unit(c, u) == IF u = <<>> THEN Rg(c.lines) \cup {0} ELSE UNION {GLines(c, g) : g \in Rg(u)}
(* the earliest layer of every unit (a gate, or an unbreakable layer), units in order *)
Clash(c, u, v) == \/ Unit(c, u) \cap Unit(c, v) # {} \/ u = <<>> \/ v = <<>>
Positions(c, us, adj) == FoldLeft(LAMBDA ps, u : Append(ps, LET P == {ps[k] + 1 : k \in {k \in 1..Len(ps) : Clash(c, us[k], u)}} \cup {1}
                                                                    \cup (IF adj THEN {ps[k] : k \in 1..Len(ps)} ELSE {}) IN MaxOf(P)), <<>>, us)
Place(us, ps, n) == [i \in 1..n |-> Flat([k \in 1..Len(us) |-> IF ps[k] = i THEN us[k] ELSE <<>>])]
Singles(c) == LET f == Flat(c.layers) IN [k \in 1..Len(f) |-> <<f[k]>>]
Parallel(c, break, adj) ==
  LET us == IF break THEN Singles(c) ELSE c.layers ps == Positions(c, us, adj) IN
  [c EXCEPT !.st = TRUE, !.layers = Place(us, ps, MaxOf({0} \cup Rg(ps)))]
Shifted(c) == LET us == Singles(c) IN [c EXCEPT !.layers = Place(us, Positions(c, us, FALSE), Len(@))]
NoIdle(c) == [c EXCEPT !.layers = SelectSeq(@, LAMBDA l : l # <<>>)]
RECURSIVE Expand(_, _)
Merge2(x, y) == [k \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) |-> (IF k <= Len(x) THEN x[k] ELSE <<>>) \o (IF k <= Len(y) THEN y[k] ELSE <<>>)]
(* the layers that a gate stands for; q: the lines of the enclosing box (<<>> = none) *)
Expand(g, q) == LET h == IF g.q = <<>> THEN [g EXCEPT !.q = q] ELSE g
                    layer(l) == IF l = <<>> THEN <<<<>>>> ELSE FoldLeft(LAMBDA a, x : Merge2(a, Expand(x, h.q)), <<>>, l) IN
  IF ~IsBox(g) THEN <<<<h>>>> ELSE Flat(Rep(Flat([i \in 1..Len(g.b) |-> layer(g.b[i])]), Reps(g)))
ExpLayer(l) == IF \E g \in Rg(l) : IsBox(g) THEN FoldLeft(LAMBDA a, x : Merge2(a, Expand(x, <<>>)), <<>>, l) ELSE <<l>>
Expanded(c) == [c EXCEPT !.layers = Flat([i \in 1..Len(@) |-> ExpLayer(@[i])])]
Factored(c) ==
  LET n == Len(c.layers) run(i) == CHOOSE k \in 1..(n - i + 1) : (\A d \in 0..(k - 1) : c.layers[i + d] = c.layers[i]) /\ (i + k > n \/ c.layers[i + k] # c.layers[i])
      starts == {i \in 1..n : i = 1 \/ c.layers[i - 1] # c.layers[i]}
      box(i) == [n |-> "#", q |-> <<>>, a |-> "", r |-> run(i), b |-> <<c.layers[i]>>] IN
  [c EXCEPT !.layers = Flat([i \in 1..n |-> IF i \notin starts THEN <<>> ELSE IF run(i) = 1 THEN <<@[i]>> ELSE <<<<box(i)>>>>])]
Repeat(c, n, name, expand) == [c EXCEPT !.layers = IF n > 1 /\ ~expand THEN <<<<BoxOf(name, c, n)>>>> ELSE Flat(Rep(@, n))]
Plus(c, d) == [lines |-> c.lines \o SelectSeq(d.lines, LAMBDA l : l \notin Rg(c.lines)), layers |-> c.layers \o d.layers, st |-> c.st /\ d.st]
(* replace every layer equal to one of the keys *)
Alias(c, al) == [c EXCEPT !.st = TRUE, !.layers = Flat([i \in 1..Len(@) |->
                   LET k == {j \in 1..Len(al) : al[j].key = @[i]} IN IF k = {} THEN <<@[i]>> ELSE al[CHOOSE j \in k : TRUE].layers])]
(* ---- what a circuit does, up to the order of gates that share no line ---- *)
(* tab[i][j]: the product of the i-th followed by the j-th element of a group of one-line gates  *)
(* named names[i]; names[1] is the identity (no gate).  tab = <<>>: all gates are different.     *)
Elem(names, g) == IF IsBox(g) \/ g.a # "" \/ Len(g.q) # 1 THEN 0 ELSE LET k == {i \in 1..Len(names) : names[i] = g.n} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
Word(c, names, tab, l) ==
  LET gs == SelectSeq(Flat(c.layers), LAMBDA g : l \in GLines(c, g))
      w == FoldLeft(LAMBDA s, g : LET e == Elem(names, g) IN IF e = 0 THEN [acc |-> 1, out |-> s.out \o <<names[s.acc], g>>] ELSE [s EXCEPT !.acc = tab[@][e]], [acc |-> 1, out |-> <<>>], gs)
  IN [tail |-> w.acc, out |-> w.out]
SameWord(x, y) == x.tail = y.tail /\ Len(x.out) = Len(y.out) /\ \A i \in 1..Len(x.out) : x.out[i] = y.out[i]
SameProgram(c, d, names, tab) == c.lines = d.lines /\ \A l \in Rg(c.lines) : SameWord(Word(c, names, tab, l), Word(d, names, tab, l))
NoClash(c) == \A i \in 1..Len(c.layers) : \A j, k \in 1..Len(c.layers[i]) : j < k => GLines(c, c.layers[i][j]) \cap GLines(c, c.layers[i][k]) = {}
Tight(c) == LET us == Singles(c) ps == Positions(c, us, FALSE) pos == Flat([i \in 1..Len(c.layers) |-> Rep(i, Len(c.layers[i]))]) IN ps = pos
Substituted(c, comp) == [c EXCEPT !.layers = Flat([i \in 1..Len(@) |-> Flat([j \in 1..Len(@[i]) |->
                   LET k == {m \in 1..Len(comp) : comp[m].key = @[i][j]} IN IF k = {} THEN <<<<@[i][j]>>>> ELSE comp[CHOOSE m \in k : TRUE].layers])])]
(* ---- queries ---- *)
RECURSIVE GDepth(_)
LDepth(l) == IF l = <<>> THEN 1 ELSE MaxOf({GDepth(l[j]) : j \in 1..Len(l)})
GDepth(g) == IF IsBox(g) THEN Reps(g) * Sum([i \in 1..Len(g.b) |-> LDepth(g.b[i])]) ELSE 1
Depth(c) == Sum([i \in 1..Len(c.layers) |-> LDepth(c.layers[i])])
Size(c) == Sum([k \in 1..Len(Flat(c.layers)) |-> Cardinality(GLines(c, Flat(c.layers)[k]))])
Count(c, n) == Len(SelectSeq(Flat(c.layers), LAMBDA g : Len(g.q) = n))
Multi(c) == Len(SelectSeq(Flat(c.layers), LAMBDA g : Len(g.q) >= 2))
WithIdles(c, l, idle) == IF \E g \in Rg(l) : g.q = <<>> THEN l
  ELSE l \o [i \in 1..Len(SelectSeq(c.lines, LAMBDA x : \A g \in Rg(l) : x \notin Rg(g.q))) |-> Gate(idle, <<SelectSeq(c.lines, LAMBDA x : \A g \in Rg(l) : x \notin Rg(g.q))[i]>>, "")]
GetLabels(c, lk, lay, nk, lines, strict, st) ==
  LET ls == LineSeq(c, nk, lines) idx == LayIdx(c, lk, lay) IN
  IF idx = <<>> \/ ls = <<>> THEN Ok([lines |-> ls, layers |-> <<>>, st |-> st])
  ELSE IF ~IdxOk(c, lk, lay) THEN Bad
  ELSE LET b == Block(c, idx, Rg(ls), strict) x == Expl(b) IN
       Ok([lines |-> IF strict THEN ls ELSE IF x # {} THEN Sorted(x) ELSE <<0>>, layers |-> b, st |-> st])
=============================================================================
