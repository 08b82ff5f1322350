----------------------------- MODULE CircuitMC -----------------------------
(* Exhaustive exploration of Circuit.tla: all small circuits, all edits of   *)
(* a menu, and the laws that edits and transformations must satisfy.         *)
EXTENDS Circuit, Json
CONSTANTS MaxStart, Depth0, Menu, Emit
VARIABLES start, c, hist
vars == <<start, c, hist>>
X(l) == Gate("Gx", <<l>>, "")
C12 == Gate("Gc", <<1, 2>>, "")
C31 == Gate("Gc", <<3, 1>>, "")
Glob == Gate("Gi", <<>>, "")
Layers == {<<>>, <<X(1)>>, <<X(2)>>, <<X(1), X(2)>>, <<C12>>, <<Glob>>}
Starts == {[lines |-> <<1, 2>>, layers |-> s, st |-> FALSE] : s \in UNION {[1..n -> Layers] : n \in 0..MaxStart}}
LayArgs(n) == {[lk |-> "all", lay |-> <<>>]} \cup {[lk |-> "int", lay |-> <<i>>] : i \in (-n)..n}
              \cup {[lk |-> "seq", lay |-> [k \in 1..(b - a) |-> a + k - 1]] : a \in 0..n, b \in 0..n}
              \cup (IF n >= 2 THEN {[lk |-> "seq", lay |-> <<1, 0>>], [lk |-> "seq", lay |-> <<-1, 0>>]} ELSE {})
LinArgs == {[nk |-> "all", lines |-> <<>>], [nk |-> "seq", lines |-> <<1>>], [nk |-> "seq", lines |-> <<2, 1>>], [nk |-> "seq", lines |-> <<3>>]}
Lbls == {<<<<>>>>, <<<<X(1)>>>>, <<<<X(2)>>>>, <<<<C12>>>>, <<<<X(1)>>, <<X(1)>>>>, <<<<C31>>>>}
Sets(n) == {[op |-> "set", d |-> 0, lk |-> a.lk, lay |-> a.lay, nk |-> b.nk, lines |-> b.lines, lbls |-> x]
            : a \in {y \in LayArgs(n) : TRUE}, b \in LinArgs, x \in Lbls}
Ins(n) == {[op |-> "inslayers", d |-> 0, none |-> z, before |-> b, nk |-> a.nk, lines |-> a.lines, lbls |-> x, lk |-> "seq"]
            : b \in (-n - 1)..(n + 1), z \in {FALSE}, a \in LinArgs, x \in Lbls}
          \cup {[op |-> "insidle", none |-> z, before |-> b, k |-> k, nk |-> a.nk, lines |-> a.lines] : b \in (-n)..n, k \in 0..2, a \in LinArgs \ {[nk |-> "seq", lines |-> <<3>>]}, z \in BOOLEAN}
Lines0(n) == {[op |-> "inslines", d |-> 0, none |-> FALSE, before |-> b, lk |-> "seq", lnone |-> z, at |-> 2, lines |-> ls, lbls |-> x]
              : b \in (-n)..n, z \in BOOLEAN, ls \in {<<3>>, <<4, 3>>, <<1>>}, x \in {<<<<X(3)>>>>, <<<<>>, <<X(3)>>>>}}
          \cup {[op |-> "dellines", nk |-> "seq", lines |-> ls, str |-> s] : ls \in {<<1>>, <<2>>, <<1, 2>>}, s \in BOOLEAN}
          \cup {[op |-> "setlines", lines |-> ls] : ls \in {<<1>>, <<2>>, <<3, 2, 1>>, <<2, 1>>, <<1, 3>>}}
          \cup {[op |-> "reorder", lines |-> ls] : ls \in {<<2, 1>>, <<1>>, <<1, 3>>}}
          \cup {[op |-> "delidle", idle |-> i] : i \in {<<>>, <<"Gi">>}}
Clears(n) == {[op |-> "clear", lk |-> a.lk, lay |-> a.lay, nk |-> b.nk, lines |-> b.lines, str |-> s] : a \in LayArgs(n), b \in LinArgs, s \in BOOLEAN}
          \cup {[op |-> "dellayers", lk |-> a.lk, lay |-> a.lay] : a \in {y \in LayArgs(n) : y.lk # "all"}} \cup {[op |-> "clearall"]}
Trans == {[op |-> o] : o \in {"reverse", "shift", "noidle", "compress", "factor", "expand"}}
          \cup {[op |-> "parallel", brk |-> b, adj |-> a] : a, b \in BOOLEAN} \cup {[op |-> "serial"]}
          \cup {[op |-> "repeat", k |-> k, expand |-> x] : k \in 0..3, x \in BOOLEAN}
Events == LET n == Len(c.layers) IN
   (IF "set" \in Menu THEN Sets(n) \cup Clears(n) ELSE {}) \cup (IF "ins" \in Menu THEN Ins(n) \cup Lines0(n) ELSE {}) \cup (IF "trans" \in Menu THEN Trans ELSE {})
Do(d, e) ==
  CASE e.op = "set" -> SetLabels(d, e.lbls, e.lk, e.lay, e.nk, e.lines)
    [] e.op = "inslayers" -> InsLayers(d, e.lbls, e.none, e.before, e.nk, e.lines)
    [] e.op = "insidle" -> InsIdle(d, e.none, e.before, e.k, e.nk, e.lines)
    [] e.op = "inslines" -> InsAsLines(d, e.lbls, e.none, e.before, e.lnone, e.at, e.lines)
    [] e.op = "dellines" -> DelLines(d, e.lines, e.str)
    [] e.op = "setlines" -> SetLines(d, e.lines)
    [] e.op = "reorder" -> IF Rg(e.lines) = Rg(d.lines) /\ Len(e.lines) = Len(d.lines) THEN Ok([d EXCEPT !.lines = e.lines]) ELSE Bad
    [] e.op = "delidle" -> Ok(DelIdleLines(d, Rg(e.idle)))
    [] e.op = "clear" -> Clear(d, e.lk, e.lay, e.nk, e.lines, e.str)
    [] e.op = "dellayers" -> DelLayers(d, e.lk, e.lay)
    [] e.op = "clearall" -> Ok([d EXCEPT !.layers = <<>>])
    [] e.op = "reverse" -> Ok(Reversed(d))
    [] e.op = "shift" -> Ok(Shifted(d))
    [] e.op = "noidle" -> Ok(NoIdle(d))
    [] e.op = "compress" -> Ok(NoIdle(Shifted(d)))
    [] e.op = "factor" -> Ok(Factored(d))
    [] e.op = "expand" -> Ok(Expanded(d))
    [] e.op = "parallel" -> Ok(Parallel(d, e.brk, e.adj))
    [] e.op = "serial" -> Ok(Serial(d))
    [] e.op = "repeat" -> Ok(Repeat(d, e.k, "#", e.expand))
Init == /\ start \in Starts /\ c = start /\ hist = <<>>
Next == /\ Len(hist) < Depth0
        /\ \E e \in Events : LET r == Do(c, e) IN
             /\ IF r.ok THEN c' = r.c ELSE Emit /\ c' = c
             /\ hist' = Append(hist, e)
        /\ UNCHANGED start
        /\ Emit /\ Len(hist') = Depth0 => PrintT("SCRIPT " \o ToJson([start |-> start, ev |-> hist']))
Spec == Init /\ [][Next]_vars
(* histories differ, circuits matter *)
View == <<c, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], Len(hist)>>
----------------------------------------------------------------------------
Same0(x, y) == x.lines = y.lines /\ SameLayers(x.layers, y.layers)
(* two gates on one line can only come from an inserted label *)
Clashless == NoClash(c)
(* gates outside of the addressed layers and lines stay where they are *)
Outside(d, I, L) == [i \in 1..Len(d.layers) |-> IF i \in I THEN SelectSeq(d.layers[i], LAMBDA g : ~Touch(d, g, L)) ELSE d.layers[i]]
LastEv == hist'[Len(hist')]
Local == [][LET e == LastEv IN (e.op \in {"set", "clear"} /\ Len(c'.layers) = Len(c.layers) /\ c'.lines = c.lines) =>
              LET I == Rg(LayIdx(c, e.lk, e.lay)) L == Rg(LineSeq(c, e.nk, e.lines)) IN
              \A i \in 1..Len(c.layers) : SameLayer(Outside(c, I, L)[i], Outside(c', I, L)[i])]_vars
InsertGrows == [][LET e == LastEv IN (e.op = "inslayers" /\ c' # c) =>
              Len(c'.layers) = Len(c.layers) + Len(e.lbls) /\ (e.nk = "all" => LET b == Before(c, e.none, e.before) r == DelLayers(c', "seq", [k \in 1..Len(e.lbls) |-> b + k - 1]) IN
                 r.ok /\ SameLayers(r.c.layers, c.layers))]_vars
(* gates on lines that are not addressed by an insertion do not move, and those on the addressed ones are all kept, in order *)
LineWord(d, l) == SelectSeq(Flat(d.layers), LAMBDA g : l \in GLines(d, g))
IdleKeeps == [][LastEv.op = "insidle" => \A l \in Rg(c.lines) : LineWord(c', l) = LineWord(c, l)]_vars
LinesKeep == [][LastEv.op \in {"setlines", "reorder", "delidle", "dellines", "inslines"} =>
                 \A l \in Rg(c.lines) \cap Rg(c'.lines) : \A g \in Rg(LineWord(c, l)) : g.q # <<>> /\ Rg(g.q) \subseteq Rg(c'.lines) =>
                    Len(SelectSeq(LineWord(c', l), LAMBDA h : h = g)) = Len(SelectSeq(LineWord(c, l), LAMBDA h : h = g))]_vars
(* a circuit without lines has no grid: not continued *)
HasLines == c.lines # <<>>
(* ---- laws of the transformations ---- *)
Prog(x, y) == SameProgram(x, y, <<"">>, <<>>)
NoBox(x) == \A g \in Rg(Flat(x.layers)) : ~IsBox(g)
Laws ==
  /\ Same0(Reversed(Reversed(c)), c)
  /\ Prog(c, Serial(c)) /\ NoClash(Serial(c)) /\ Size(Serial(c)) = Size(c)
  /\ Prog(c, Shifted(c)) /\ NoClash(Shifted(c)) /\ Tight(Shifted(c)) /\ Size(Shifted(c)) = Size(c)
  /\ Same0(Shifted(Shifted(c)), Shifted(c))
  /\ Prog(c, NoIdle(c)) /\ \A i \in 1..Len(NoIdle(c).layers) : NoIdle(c).layers[i] # <<>>
  /\ \A brk, adj \in BOOLEAN : LET p == Parallel(c, brk, adj) IN Prog(c, p) /\ NoClash(p) /\ (brk \/ Len(p.layers) <= Len(c.layers)) /\ Size(p) = Size(c)
  /\ Len(Parallel(Serial(c), TRUE, FALSE).layers) <= Len(Serial(c).layers)
  /\ NoBox(c) => Same0(Expanded(Factored(c)), c)
  /\ NoClash(Expanded(c)) /\ Prog(Expanded(c), Expanded(Expanded(c)))
  /\ Depth(Factored(c)) = Depth(c)
  /\ NoBox(c) => Depth(c) = Len(c.layers)
  /\ \A k \in 2..3 : LET e == [c EXCEPT !.layers = Flat(Rep(c.layers, k))] IN Depth(Repeat(c, k, "#", FALSE)) = Depth(e) /\ Same0(Repeat(c, k, "#", TRUE), e)
  /\ Prog(Rename(Rename(c, [n |-> <<>>, q |-> <<<<1, 7>>, <<2, 8>>>>]), [n |-> <<>>, q |-> <<<<7, 1>>, <<8, 2>>>>]), c)
  /\ LET d == [lines |-> <<8, 9>>, layers |-> <<<<X(8)>>, <<>>, <<Gate("Gc", <<9, 8>>, "")>>>>, st |-> FALSE] t == Tensor(c, d, <<>>) IN
       (\A g \in Rg(Flat(c.layers)) : g.q # <<>>) /\ t.ok => /\ NoClash(t.c) /\ \A l \in Rg(c.lines) : LineWord(t.c, l) = LineWord(c, l)
                                                             /\ \A l \in {8, 9} : LineWord(t.c, l) = LineWord(d, l)
  /\ \A idle \in {{}, {"Gi"}} : LET d == DelIdleLines(c, idle) IN IdleLines(d, idle) = <<>> /\ Rg(d.lines) \cup Rg(IdleLines(c, idle)) = Rg(c.lines)
=============================================================================
