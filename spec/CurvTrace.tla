----------------------------- MODULE CurvTrace -----------------------------
(***************************************************************************)
(* Judges recorded runs of the step finder ("steps") and the information   *)
(* matrix ("info").  Every evaluation is recorded with the coordinates in  *)
(* which its argument differs from the mode and the exact value.           *)
(***************************************************************************)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
CInit(c) == [n |-> 0, above |-> FALSE, raised |-> FALSE, per |-> [q \in 1..c.dim |-> 0]]
K(a) == [k |-> a]
Above(c, e) == FLt(K(c.max), K(e.v))
CJudge(c, s, e) ==
  IF e.op = "eval" THEN
    UNION {IF Len(e.x) <= (IF c.kind = "info" THEN 2 ELSE 1) THEN {} ELSE {"C21:evaluation away from the stepped coordinates"},
           IF c.kind = "steps" /\ s.above THEN {"C21:search continues beyond the maximum"} ELSE {},
           IF s.raised THEN {"C21:exception swallowed"} ELSE {}}
  ELSE IF e.op = "kept" THEN (IF e.ok THEN {} ELSE {"C21:caller's arrays modified"})
  ELSE IF s.raised THEN (IF e.r = "Boom" THEN {} ELSE {"C21:exception swallowed"})
  ELSE IF c.kind = "steps" THEN
    IF s.above THEN (IF e.r = "ValueError" THEN {} ELSE {"C21:mode not at the maximum is not reported"})
    ELSE IF e.r = "ok" THEN
      UNION {IF Len(e.d) = c.dim THEN {} ELSE {"C21:wrong number of steps"},
             IF c.script \/ \A q \in 1..Len(e.d) : e.d[q] <= 1001 THEN {} ELSE {"C21:step does not change the log likelihood as requested"},
             IF c.script \/ e.nz THEN {} ELSE {"C21:zero or undefined step"},
             IF c.expect \in {"ok", "any"} THEN {} ELSE {"C21:result although the search failed"}}
    ELSE IF e.r = "RuntimeError" THEN
      UNION {IF c.expect \in {"fail", "any"} THEN {} ELSE {"C21:search failed without need"},
             IF \E q \in 1..c.dim : s.per[q] > c.maxit THEN {} ELSE {"C21:search gave up early"}}
    ELSE {"C21:unexpected outcome"}
  ELSE
    IF e.r # "ok" THEN {"C21:unexpected outcome"}
    ELSE UNION {IF e.shape THEN {} ELSE {"C21:wrong shape"},
                IF e.sym THEN {} ELSE {"C21:information matrix not symmetric"},
                IF e.err THEN {} ELSE {"C21:error estimates"},
                IF \A q \in 1..Len(e.d) : e.d[q] <= 1000 THEN {} ELSE {"C21:information matrix not exact"},
                IF s.n = e.need THEN {} ELSE {"C21:number of evaluations"}}
CAfter(c, s, e) ==
  IF e.op # "eval" THEN s
  ELSE [n |-> s.n + 1, above |-> s.above \/ (c.kind = "steps" /\ Above(c, e)), raised |-> s.raised \/ e.boom,
        per |-> IF Len(e.x) = 1 THEN [s.per EXCEPT ![e.x[1]] = @ + 1] ELSE s.per]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- CInit, TJudge <- CJudge, TAfter <- CAfter
=============================================================================
