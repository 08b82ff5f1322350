------------------------------ MODULE CircText ------------------------------
(* The text form of circuits: its grammar as a recursive parser over        *)
(* characters, its printing, and what the text denotes.                     *)
(* A label: [k: "gate" / "layer" / "box", n: name (characters), a: list of   *)
(* arguments (characters), q: list of lines, all: no lines given, t: time    *)
(* in thousandths, r: repetitions, b: parts].  A line: [int, s: characters]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rep(x, k) == Flat([i \in 1..k |-> x])
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
InName == Lower \cup Digit \cup {"_"}
InLine == InName \cup {"Q"}
InArg == InLine \cup {".", "/"}
Num(s) == FoldLeft(LAMBDA a, c : (10 * a) + Val(c), 0, s)
(* the end (first position after) of the longest run of characters of C from i *)
Run(s, i, C) == CHOOSE j \in i..(Len(s) + 1) : (\A k \in i..(j - 1) : s[k] \in C) /\ (j > Len(s) \/ s[j] \notin C)
Sub(s, i, j) == SubSeq(s, i, j - 1)
At(s, i, c) == i <= Len(s) /\ s[i] = c
(* numbers without leading zeros *)
Trim(s) == LET k == {i \in 1..Len(s) : s[i] # "0"} IN IF k = {} THEN <<"0">> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, Len(s))
Line(s, intz) == IF intz /\ \A i \in 1..Len(s) : s[i] \in Digit THEN [int |-> TRUE, s |-> Trim(s)] ELSE [int |-> FALSE, s |-> s]
(* a time: digits with at most one point; thousandths *)
TimeOk(s) == (\E i \in 1..Len(s) : s[i] \in Digit) /\ Cardinality({i \in 1..Len(s) : s[i] = "."}) <= 1
Thousandths(s) == LET p == {i \in 1..Len(s) : s[i] = "."} IN
  IF p = {} THEN 1000 * Num(s) ELSE LET i == CHOOSE i \in p : TRUE f == SubSeq(SubSeq(s, i + 1, Len(s)) \o <<"0", "0", "0">>, 1, 3) IN (1000 * Num(SubSeq(s, 1, i - 1))) + Num(f)
Lbl(n, a, q, t) == [k |-> "gate", n |-> n, a |-> a, q |-> q, all |-> q = <<>>, t |-> t, r |-> 1, b |-> <<>>]
(* the lines a list of labels is on: all, or a set *)
OnAll(b) == \E i \in 1..Len(b) : b[i].all
LinesOf(b) == UNION {Rg(b[i].q) : i \in 1..Len(b)}
Layer(b) == [k |-> "layer", n |-> <<>>, a |-> <<>>, q |-> SetToSeq(LinesOf(b)), all |-> b = <<>> \/ OnAll(b), t |-> MaxOf({0} \cup {b[i].t : i \in 1..Len(b)}), r |-> 1, b |-> b]
SumT(b) == FoldLeft(LAMBDA x, y : x + y.t, 0, b)
Box(b, r) == [k |-> "box", n |-> <<>>, a |-> <<>>, q |-> IF Len(b) = 1 THEN b[1].q ELSE SetToSeq(LinesOf(b)), all |-> OnAll(b), t |-> SumT(b), r |-> r, b |-> b]
No == [ok |-> FALSE]
Yes(out, i, seg) == [ok |-> TRUE, out |-> out, i |-> i, seg |-> seg]
Expo(s, i) == IF ~At(s, i, "^") THEN [ok |-> TRUE, n |-> 1, i |-> i]
              ELSE LET j == Run(s, i + 1, Digit) IN IF j = i + 1 THEN No ELSE [ok |-> TRUE, n |-> Num(Sub(s, i + 1, j)), i |-> j]
RECURSIVE Args(_, _, _)
Args(s, i, acc) == IF ~At(s, i, ";") THEN [i |-> i, out |-> acc] ELSE LET j == Run(s, i + 1, InArg) IN Args(s, j, Append(acc, Sub(s, i + 1, j)))
RECURSIVE Lins(_, _, _, _)
Lins(s, i, acc, intz) == IF ~At(s, i, ":") THEN [ok |-> TRUE, i |-> i, out |-> acc]
   ELSE LET j == Run(s, i + 1, InLine) IN IF j = i + 1 /\ intz THEN No ELSE Lins(s, j, Append(acc, Line(Sub(s, i + 1, j), intz)), intz)
(* one gate, instrument, preparation (only first: seg 0), measurement (only last: then seg 2), or {} *)
Simple(s, i, seg, intz) ==
  LET rho == seg = 0 /\ At(s, i, "r") /\ At(s, i + 1, "h") /\ At(s, i + 2, "o")
      start == IF rho THEN i + 3 ELSE i + 1
      e == Run(s, start, InName)
      as == Args(s, e, <<>>) ls == Lins(s, as.i, <<>>, intz) IN
  IF seg <= 1 /\ At(s, i, "{") THEN (IF At(s, i + 1, "}") THEN Yes(<<>>, i + 2, seg) ELSE No)
  ELSE IF ~(rho \/ (seg <= 1 /\ (At(s, i, "G") \/ At(s, i, "I") \/ At(s, i, "M")))) THEN No
  ELSE LET seg2 == IF rho \/ ~At(s, i, "M") THEN 1 ELSE 2 nm == Sub(s, i, e) IN
       IF ~ls.ok THEN No
       ELSE IF ~At(s, ls.i, "!") THEN Yes(<<Lbl(nm, as.out, ls.out, 0)>>, ls.i, seg2)
       ELSE LET j == Run(s, ls.i + 1, Digit \cup {"."}) ts == Sub(s, ls.i + 1, j) IN
            IF ~TimeOk(ts) THEN No ELSE Yes(<<Lbl(nm, as.out, ls.out, Thousandths(ts))>>, j, seg2)
RECURSIVE Items(_, _, _, _, _, _, _)
RECURSIVE Item(_, _, _, _, _)
Item(s, i, seg, sub, intz) ==
  IF s[i] = "(" \/ s[i] = "[" THEN
    LET r == Items(s, i + 1, seg, sub, intz, IF s[i] = "(" THEN ")" ELSE "]", <<>>) IN
    IF ~r.ok THEN No
    ELSE LET e == Expo(s, r.i + 1) IN
         IF ~e.ok THEN No
         ELSE IF s[i] = "[" THEN Yes(Rep(<<IF Len(r.out) = 1 THEN r.out[1] ELSE Layer(r.out)>>, e.n), e.i, r.seg)
         ELSE IF ~sub THEN Yes(Rep(r.out, e.n), e.i, r.seg)
         ELSE Yes(IF r.out = <<>> THEN <<>> ELSE <<Box(r.out, e.n)>>, e.i, r.seg)
  ELSE LET r == Simple(s, i, seg, intz) IN
       IF ~r.ok THEN No ELSE LET e == Expo(s, r.i) IN IF ~e.ok THEN No ELSE Yes(Rep(r.out, e.n), e.i, r.seg)
Items(s, i, seg, sub, intz, close, acc) ==
  IF i > Len(s) THEN (IF close = "" THEN Yes(acc, i, seg) ELSE No)
  ELSE IF s[i] = close THEN Yes(acc, i, seg)
  ELSE LET r == Item(s, i, seg, sub, intz) IN IF ~r.ok THEN No ELSE Items(s, r.i, r.seg, sub, intz, close, acc \o r.out)
(* the list of lines after @ *)
RECURSIVE StripL(_, _)
StripL(s, C) == IF s # <<>> /\ s[1] \in C THEN StripL(Tail(s), C) ELSE s
Strip(s, C) == Reverse(StripL(Reverse(StripL(s, C)), C))
RECURSIVE Split(_, _)
Split(s, acc) == IF s = <<>> THEN <<acc>> ELSE IF s[1] = "," THEN <<acc>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(acc, s[1]))
Named(w) == LET x == Strip(w, {" "}) IN IF x # <<>> /\ \A i \in 1..Len(x) : x[i] \in Digit THEN [int |-> TRUE, s |-> Trim(x)] ELSE [int |-> FALSE, s |-> x]
LineList(s) == LET x == Strip(s, {"(", ")", " "}) IN IF x = <<>> THEN <<>> ELSE LET w == Split(x, <<>>) IN [i \in 1..Len(w) |-> Named(w[i])]
Ats(s) == {i \in 1..Len(s) : s[i] = "@"}
(* what a text denotes: its layers, whether it names lines, and those *)
Parse(text, sub, intz) ==
  LET at == Ats(text) i == CHOOSE i \in at : TRUE
      code == SelectSeq(IF at = {} THEN text ELSE SubSeq(text, 1, i - 1), LAMBDA c : c # "*") IN
  IF Cardinality(at) > 1 THEN No
  ELSE LET r == Items(code, 1, 0, sub, intz, "", <<>>) IN
       IF ~r.ok THEN No ELSE [ok |-> TRUE, layers |-> r.out, named |-> at # {}, lines |-> IF at = {} THEN <<>> ELSE LineList(SubSeq(text, i + 1, Len(text)))]
(* ---- printing ---- *)
RECURSIVE Digits(_)
Digits(n) == LET d == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[(n % 10) + 1] IN IF n < 10 THEN <<d>> ELSE Append(Digits(n \div 10), d)
Pad3(n) == (IF n < 10 THEN <<"0", "0">> ELSE IF n < 100 THEN <<"0">> ELSE <<>>) \o Digits(n)
TimeText(t) == IF t = 0 THEN <<>> ELSE <<"!">> \o Digits(t \div 1000) \o (IF t % 1000 = 0 THEN <<>> ELSE <<".">> \o Pad3(t % 1000))
RECURSIVE Show(_)
Show(x) ==
  CASE x.k = "gate" -> x.n \o Flat([i \in 1..Len(x.a) |-> <<";">> \o x.a[i]]) \o Flat([i \in 1..Len(x.q) |-> <<":">> \o x.q[i].s]) \o TimeText(x.t)
    [] x.k = "layer" -> <<"[">> \o Flat([i \in 1..Len(x.b) |-> Show(x.b[i])]) \o <<"]">>
    [] x.k = "box" -> <<"(">> \o (IF x.b = <<>> THEN <<"{", "}">> ELSE Flat([i \in 1..Len(x.b) |-> Show(x.b[i])])) \o <<")", "^">> \o Digits(x.r)
Text(layers, named, lines) == (IF layers = <<>> THEN <<"{", "}">> ELSE Flat([i \in 1..Len(layers) |-> Show(layers[i])]))
   \o (IF ~named THEN <<>> ELSE <<"@", "(">> \o Flat([i \in 1..Len(lines) |-> (IF i = 1 THEN <<>> ELSE <<",">>) \o lines[i].s]) \o <<")">>)
(* ---- what is denoted ---- *)
RECURSIVE SameLbl(_, _)
SameList(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameLbl(x[i], y[i])
(* the lines of boxes and layers are those of their parts, in any order *)
SameLbl(x, y) == /\ x.k = y.k /\ x.n = y.n /\ x.a = y.a /\ x.r = y.r /\ x.t = y.t /\ x.all = y.all
                 /\ IF x.k = "gate" THEN x.q = y.q ELSE x.all \/ (Rg(x.q) = Rg(y.q) /\ Len(x.q) = Len(y.q))
                 /\ SameList(x.b, y.b)
(* the same label but for its time: what == means *)
RECURSIVE EqLbl(_, _)
EqList(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : EqLbl(x[i], y[i])
EqLbl(x, y) == /\ x.k = y.k /\ x.n = y.n /\ x.a = y.a /\ x.r = y.r /\ (x.k = "layer" \/ (x.all = y.all /\ x.q = y.q)) /\ EqList(x.b, y.b)
(* the layers (lists of gates) that remain when boxes are written out and layers in layers are merged *)
RECURSIVE Out(_)
Zip2(x, y) == [k \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) |-> (IF k <= Len(x) THEN x[k] ELSE <<>>) \o (IF k <= Len(y) THEN y[k] ELSE <<>>)]
Out(x) == CASE x.k = "gate" -> <<<<x>>>>
            [] x.k = "layer" -> IF x.b = <<>> THEN <<<<>>>> ELSE FoldLeft(LAMBDA a, y : Zip2(a, Out(y)), <<>>, x.b)
            [] x.k = "box" -> Rep(Flat([i \in 1..Len(x.b) |-> Out(x.b[i])]), x.r)
Outs(b) == Flat([i \in 1..Len(b) |-> Out(b[i])])
RECURSIVE HasBox(_)
HasBox(x) == x.k = "box" \/ \E i \in 1..Len(x.b) : HasBox(x.b[i])
SameGates(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameList(x[i], y[i])
(* two texts' meanings agree: exactly, or, when there are boxes, once these are written out *)
Denotes(layers, p) == IF (\E i \in 1..Len(layers) : HasBox(layers[i])) \/ (\E i \in 1..Len(p.layers) : HasBox(p.layers[i])) THEN SameGates(Outs(layers), Outs(p.layers)) ELSE SameList(layers, p.layers)
=============================================================================
