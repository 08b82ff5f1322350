----------------------------- MODULE CircTextMC -----------------------------
(* All short sequences of tokens, and all small circuits: printing and       *)
(* parsing are inverse to each other.                                        *)
EXTENDS CircText, Json
CONSTANTS MaxTok, MaxLay, Emit
VARIABLES toks, circ
vars == <<toks, circ>>
Tokens == {<<"G", "x">>, <<"r", "h", "o">>, <<"M", "0">>, <<"I", "z">>, <<":", "0">>, <<":", "Q", "1">>, <<";", "a">>, <<"!", "1">>, <<"^", "2">>, <<"^">>, <<"[">>, <<"]">>,
           <<"(">>, <<")">>, <<"{", "}">>, <<"@", "(", "0", ")">>, <<":">>, <<"*">>, <<":", "1", "_", "0">>, <<"!", ".">>, <<"^", "0">>}
I(c) == [int |-> TRUE, s |-> <<c>>]
S(c) == [int |-> FALSE, s |-> <<"Q", c>>]
Gates == {Lbl(<<"G", "x">>, <<>>, <<>>, 0), Lbl(<<"G", "x">>, <<>>, <<I("0")>>, 0), Lbl(<<"G", "c">>, <<>>, <<I("1"), I("0")>>, 1500), Lbl(<<"G">>, <<<<"1", ".", "5">>, <<"a">>>>, <<S("1")>>, 0),
          Lbl(<<"I", "z">>, <<<<"x">>>>, <<>>, 7)}
Flat2 == Gates \cup {Layer(<<>>)} \cup {Layer(<<g, h>>) : g \in Gates, h \in Gates}
Boxes == {Box(b, r) : b \in {<<x>> : x \in Flat2} \cup {<<x, y>> : x \in Gates, y \in Gates}, r \in {0, 1, 12}}
Labels == Flat2 \cup Boxes \cup {Layer(<<g, b>>) : g \in Gates, b \in {Box(<<h, k>>, 2) : h \in Gates, k \in Gates}}
LineLists == {[named |-> FALSE, lines |-> <<>>], [named |-> TRUE, lines |-> <<I("0"), I("1"), S("1")>>], [named |-> TRUE, lines |-> <<>>]}
Init == /\ toks = <<>>
        /\ circ \in {[layers |-> x, named |-> y.named, lines |-> y.lines] : x \in {<<>>} \cup {<<z>> : z \in Labels} \cup (IF MaxLay >= 2 THEN {<<z, w>> : z \in Flat2, w \in Labels} ELSE {}), y \in LineLists}
NoCirc == [layers |-> <<>>, named |-> FALSE, lines |-> <<>>]
Next == /\ circ = NoCirc /\ Len(toks) < MaxTok
        /\ \E t \in Tokens : toks' = Append(toks, t)
        /\ UNCHANGED circ
        /\ Emit => PrintT("SCRIPT " \o ToJson(Flat(toks')))
Spec == Init /\ [][Next]_vars
(* printing then parsing gives the circuit back *)
RoundTrip == LET p == Parse(Text(circ.layers, circ.named, circ.lines), TRUE, TRUE) IN
  p.ok /\ p.named = circ.named /\ p.lines = circ.lines /\ SameList(circ.layers, p.layers) /\ Denotes(circ.layers, p)
(* every accepted text can be printed again, with the same meaning; boxes only change how it is written *)
Stable == LET p == Parse(Flat(toks), TRUE, TRUE) x == Parse(Flat(toks), FALSE, TRUE) IN
  /\ p.ok = x.ok
  /\ p.ok /\ ~((\E i \in 1..Len(toks) : toks[i] \in {<<"r", "h", "o">>, <<"M", "0">>}) /\ \E i \in 1..Len(toks) : toks[i] = <<"^", "2">>) => LET q == Parse(Text(p.layers, p.named, p.lines), TRUE, TRUE) IN q.ok /\ SameList(p.layers, q.layers) /\ p.lines = q.lines /\ p.named = q.named
  /\ p.ok => SameGates(Outs(p.layers), Outs(x.layers)) \/ \E i \in 1..Len(toks) : toks[i] \in {<<"[">>}
=============================================================================
