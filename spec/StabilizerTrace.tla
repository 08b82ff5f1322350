--------------------------- MODULE StabilizerTrace ---------------------------
(* Judges what the real stabilizer simulation did (Clifford.tla): every state  *)
(* it holds is an exact state vector here.  An event changes one state (or     *)
(* makes a new one) and records what every live state looks like afterwards.   *)
EXTENDS Clifford, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, objs, bad
vars == <<tid, l, objs, bad>>
Rg(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Play(_, _)
Play(V, gs) == IF gs = <<>> THEN V ELSE Play(ApplyU(V, Head(gs).u, Head(gs).q), Tail(gs))
RECURSIVE PlayBack(_, _)
PlayBack(V, gs) == IF gs = <<>> THEN V
                   ELSE PlayBack(ApplyU(V, ConjU(gs[Len(gs)].u), gs[Len(gs)].q), SubSeq(gs, 1, Len(gs) - 1))
RECURSIVE KronAll(_)
KronAll(s) == IF Len(s) = 1 THEN s[1] ELSE KronV(s[1], KronAll(Tail(s)))
Has(i) == i \in DOMAIN objs
Set(i, V) == [j \in DOMAIN objs \cup {i} |-> IF j = i THEN V ELSE objs[j]]
\* the states after the event; a state known only up to its phase is kept as some vector
After(e) ==
  CASE e.raised -> objs
    [] e.op = "prep" -> Set(e.dst, Basis(e.z))
    [] e.op = "apply" -> Set(e.dst, IF e.adj THEN PlayBack(objs[e.src], e.gs) ELSE Play(objs[e.src], e.gs))
    [] e.op = "circ" -> Set(e.dst, Play(Basis(e.z), e.gs))
    [] e.op = "copy" -> Set(e.dst, objs[e.src])
    [] e.op = "kron" -> Set(e.dst, KronAll([i \in 1 .. Len(e.srcs) |-> objs[e.srcs[i]]]))
    [] e.op = "meas" -> IF e.dst = 0 \/ ProbM(objs[e.src], e.q, e.out) < 0 THEN objs
                        ELSE Set(e.dst, Collapse(objs[e.src], e.q, e.out))
    [] e.op = "look" -> objs
    [] e.op = "drop" -> [j \in DOMAIN objs \ Rg(e.ids) |-> objs[j]]
\* what is wrong with the observation o of a state V
Look(o, V) ==
  CASE o.kind = "amps" -> IF o.k = V.k /\ o.j = Amps(V) THEN "" ELSE "amplitudes"
    [] o.kind = "probs" -> IF o.m = Probs(V) THEN "" ELSE "probabilities"
    [] o.kind = "stab" -> IF \E i \in 1 .. Len(o.g) : ~PauliOk(o.g[i], V.n) \/ ~Fixes(o.g[i], V) THEN "stabilizers"
                          ELSE IF Len(o.g) # V.n \/ \E sel \in [1 .. V.n -> {0, 1}] :
                                    sel # Zeros(V.n) /\ LET p == GroupEl(o.g, sel) IN p.x = Zeros(V.n) /\ p.z = Zeros(V.n)
                          THEN "stabilizers not independent" ELSE ""
First(s) == IF \E i \in 1 .. Len(s) : s[i] # "" THEN s[CHOOSE i \in 1 .. Len(s) : s[i] # "" /\ \A j \in 1 .. i - 1 : s[j] = ""] ELSE ""
Verdict(e, A) ==
  IF e.raised THEN "failed"
  ELSE IF e.op = "meas" /\ e.m # ProbM(objs[e.src], e.q, e.out) THEN "probability of the measured bits"
  ELSE First([i \in 1 .. Len(e.obs) |->
         LET o == e.obs[i]  w == IF o.id \in DOMAIN A THEN Look(o, A[o.id]) ELSE "state that should not exist" IN
         IF w = "" THEN "" ELSE IF o.id = e.dst \/ e.op \in {"look"} THEN w ELSE w \o " of another state changed"])
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ bad = "" /\ objs = [i \in {} |-> Basis(<<0>>)]
Next == /\ bad = "" /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]  A == After(e)  v == Verdict(e, A) IN
             /\ bad' = v /\ objs' = A
             /\ IF v = "" THEN TRUE
                ELSE PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, clause |-> e.op \o ": " \o v,
                       want |-> IF e.dst \in DOMAIN A THEN [amps |-> Amps(A[e.dst]), k |-> A[e.dst].k, probs |-> Probs(A[e.dst]),
                                                            m |-> IF e.op = "meas" THEN ProbM(objs[e.src], e.q, e.out) ELSE 0] ELSE [amps |-> <<>>, k |-> 0, probs |-> <<>>, m |-> 0]]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
