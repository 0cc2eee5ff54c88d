------------------------------ MODULE MinTrace ------------------------------
(***************************************************************************)
(* Judges minimum searches from the record of every function evaluation.   *)
(* A "go" event starts a search (kind brk / brent / lin / pow) from the    *)
(* point k0 with value v0; "eval" is one call with exact argument and      *)
(* value; the result event has the kind's name.                            *)
(***************************************************************************)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
MInit(c) == [p |-> {}, n |-> 0, k0 |-> <<>>, v0 |-> <<>>, g |-> [kind |-> "none"]]
K(a) == [k |-> a]
Le(x, y) == FLe(K(x), K(y))
Lt(x, y) == FLt(K(x), K(y))
Known(s, k, v) == <<k, v>> \in s.p
Lim(s) == s.g.lim >= 0
MJudge(c, s, e) ==
  IF e.op = "go" THEN {}
  ELSE IF e.op = "eval" THEN
    IF s.g.kind = "brent" THEN
      UNION {IF Le(s.g.lo, e.k) /\ Le(e.k, s.g.hi) THEN {} ELSE {"C19:evaluation outside the bracket"},
             IF s.g.lim < 0 \/ s.n <= s.g.lim THEN {} ELSE {"C19:iteration limit not respected"}}
    ELSE {}
  ELSE IF e.op = "brk" THEN
    IF e.r # "ok" THEN {"C19:bracketing failed"} ELSE
    UNION {IF \A q \in 1..3 : Known(s, e.x[q], e.f[q]) THEN {} ELSE {"C19:bracket values are not the function values"},
           IF Lt(e.x[1], e.x[2]) /\ Lt(e.x[2], e.x[3]) THEN {} ELSE {"C19:bracket not ordered"},
           IF Le(e.f[2], e.f[1]) /\ Le(e.f[2], e.f[3]) THEN {} ELSE {"C19:middle of the bracket above an end"},
           IF Le(e.f[2], s.g.v0) THEN {} ELSE {"C19:bracket worse than the start"}}
  ELSE IF e.op = "min" THEN
    IF e.r = "IterErr" THEN
       IF Lim(s) /\ e.need > s.g.lim THEN {} ELSE {"C19:iteration error within the limit"}
    ELSE IF e.r # "ok" THEN {"C19:unexpected outcome"}
    ELSE
    UNION {IF Known(s, e.x, e.f) THEN {} ELSE {"C19:returned value is not the function value at the returned point"},
           IF Le(e.f, s.g.v0) THEN {} ELSE {"C19:worse than the start"},
           IF s.g.kind # "brent" THEN {} ELSE
             UNION {IF Le(s.g.lo, e.x) /\ Le(e.x, s.g.hi) THEN {} ELSE {"C19:outside the bracket"},
                    IF \A q \in s.p : Le(e.f, q[2]) THEN {} ELSE {"C19:not the lowest point evaluated"}},
           IF Lim(s) /\ e.need > s.g.lim THEN {"C19:result although the iteration limit was exceeded"} ELSE {},
           IF e.same THEN {} ELSE {"C19:result depends on the limit, logging or representation"},
           IF e.d <= 1000 THEN {} ELSE {"C19:minimum not located"}}
  ELSE IF e.op = "kept" THEN (IF e.ok THEN {} ELSE {"C19:caller's arrays modified"})
  ELSE IF e.op = "step" THEN (IF e.ok THEN {} ELSE {"C19:returned displacement does not lead to the returned point"})
  ELSE {"C19:unknown event"}
MAfter(c, s, e) ==
  IF e.op = "go" THEN [s EXCEPT !.p = {}, !.n = 0, !.g = e]
  ELSE IF e.op = "eval" THEN [s EXCEPT !.p = @ \cup {<<e.k, e.v>>}, !.n = @ + 1]
  ELSE s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- MInit, TJudge <- MJudge, TAfter <- MAfter
=============================================================================
