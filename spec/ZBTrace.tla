------------------------------- MODULE ZBTrace -------------------------------
(***************************************************************************)
(* Judges bracketing searches.  The evaluations are replayed: c.x0 is the  *)
(* initial interval, each "eval" event one call of the function with the   *)
(* exact argument and the sign of its value, "end" the outcome.            *)
(***************************************************************************)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
ZInit(c) == [lo |-> c.lo, hi |-> c.hi, slo |-> 9, shi |-> 9, n |-> 0, p |-> {}]
K(a) == [k |-> a]
\* the value known at an argument
Val(s, k) == {x[2] : x \in {x \in s.p : x[1] = k}}
Opposite(x, y) == x * y < 0
Signs(s, c, k) == Val(s, k) \cup (IF c.given /\ k = c.lo THEN {c.slo} ELSE {}) \cup (IF c.given /\ k = c.hi THEN {c.shi} ELSE {})
ZJudge(c, s, e) ==
  IF e.op = "eval" THEN
    UNION {IF e.extra THEN {} ELSE {"C18:extra arguments not passed"},
      IF FLe(K(e.k), K(s.lo)) \/ FLe(K(s.hi), K(e.k)) \/ e.k = c.lo \/ e.k = c.hi THEN {} ELSE {"C18:search does not move outward"},
      IF Cardinality(s.p \cup {<<e.k, e.s>>}) <= c.lim + 2 THEN {} ELSE {"C18:too many expansions"}}
  ELSE IF e.op = "same" THEN (IF e.ok THEN {} ELSE {"C18:initial values or extra arguments change the result"})
  ELSE IF e.op = "null" THEN (IF e.r = "ValueError" THEN {} ELSE {"C18:null interval accepted"})
  ELSE IF e.r = "ok" THEN
    IF ~(FLe(K(e.lo), K(c.lo)) /\ FLe(K(c.hi), K(e.hi))) THEN {"C18:result does not contain the initial interval"}
    ELSE IF \E x \in Signs(s, c, e.lo), y \in Signs(s, c, e.hi) : Opposite(x, y) THEN {} ELSE {"C18:no sign change between the ends"}
  ELSE IF e.r # "RuntimeError" THEN {"C18:unexpected outcome"}
  ELSE UNION {IF \E x \in Signs(s, c, s.lo), y \in Signs(s, c, s.hi) : Opposite(x, y) THEN {"C18:gave up with a sign change in hand"} ELSE {},
              IF Cardinality({x \in s.p : x[1] # c.lo /\ x[1] # c.hi}) >= c.lim THEN {} ELSE {"C18:gave up early"}}
ZAfter(c, s, e) == IF e.op # "eval" THEN s
  ELSE [s EXCEPT !.lo = IF FLt(K(e.k), K(@)) THEN e.k ELSE @, !.hi = IF FLt(K(@), K(e.k)) THEN e.k ELSE @, !.p = @ \cup {<<e.k, e.s>>}]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- ZInit, TJudge <- ZJudge, TAfter <- ZAfter
=============================================================================
