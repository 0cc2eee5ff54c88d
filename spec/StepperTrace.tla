---------------------------- MODULE StepperTrace ----------------------------
(* Judges interleaved generators.  c.g: [n, lo, hi, up, enum]; an event is   *)
(* one request: value (exact), deviation from the ideal position in 1e-3 of *)
(* the tolerance, index for the enumerating variants.                       *)
EXTENDS FloatRec, TLC, TraceData
VARIABLES t, i, st
SInit(c) == [k |-> [g \in 1..Len(c.g) |-> 0], p |-> [g \in 1..Len(c.g) |-> <<-1, -1, -1>>]]
SJudge(c, s, e) == LET g == e.g G == c.g[g] k == s.k[g] IN
  IF k >= G.n THEN (IF e.r = "end" THEN {} ELSE {"C16:more than n values"})
  ELSE IF e.r = "end" THEN {"C16:fewer than n values"}
  ELSE IF e.r # "ok" THEN {"C16:stepper failed"}
  ELSE UNION {
    IF k = 0 /\ e.v # G.lo THEN {"C16:first value"} ELSE {},
    IF k = G.n - 1 /\ e.v # G.hi THEN {"C16:last value"} ELSE {},
    IF e.d <= 1000 THEN {} ELSE {"C16:uneven steps"},
    IF k > 0 /\ ~(IF G.up THEN FLt([k |-> s.p[g]], [k |-> e.v]) ELSE FLt([k |-> e.v], [k |-> s.p[g]])) THEN {"C16:not monotone"} ELSE {},
    IF G.enum /\ e.j # k THEN {"C16:wrong index"} ELSE {}}
SAfter(c, s, e) == [k |-> [s.k EXCEPT ![e.g] = @ + 1], p |-> [s.p EXCEPT ![e.g] = e.v]]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- SInit, TJudge <- SJudge, TAfter <- SAfter
=============================================================================
