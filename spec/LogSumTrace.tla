---------------------------- MODULE LogSumTrace ----------------------------
(***************************************************************************)
(* Judges a running log summer.  Programs of small integers (c.exact) are  *)
(* judged by exact integer sums: e.S, e.Q, e.M, e.V are the reported sum,  *)
(* sum of squares, n * mean and n^2 * variance as rounded integers in      *)
(* 1/1000 (relative to the common scale).  All programs are judged against *)
(* a multi-precision reference (d: deviations in 1e-3 of the tolerance).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceData
VARIABLES t, i, st
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == AbsI(x - 1000 * y) <= 2 + y \div 1000
LInit(c) == [n |-> c.n0, s |-> c.s0, q |-> 0, any |-> c.n0 > 0]
Step(c, s, e) == CASE e.op = "add" -> [n |-> s.n + 1, s |-> s.s + e.v, q |-> s.q + e.v * e.v, any |-> TRUE]
                   [] e.op = "rep" -> [s EXCEPT !.n = @ + e.k, !.any = TRUE]
                   [] e.op = "zero" -> [s EXCEPT !.n = @ + 1]
                   [] OTHER -> s
LJudge(c, s0, e) == LET s == Step(c, s0, e) x == e.st IN
  IF e.r # "ok" THEN {"C17:entry refused"}
  ELSE IF ~s.any THEN (IF x.r = "ValueError" THEN {} ELSE {"C17:reports the log of an empty sum"})
  ELSE IF x.r # "ok" THEN {"C17:status refused"}
  ELSE UNION {
    IF x.n = s.n THEN {} ELSE {"C17:number of entries"},
    IF \A j \in 1..Len(x.d) : x.d[j] <= 1000 THEN {} ELSE {"C17:log of the sum or of a moment"},
    IF c.exact /\ ~(Near(x.S, s.s) /\ Near(x.M, s.s)) THEN {"C17:sum"} ELSE {},
    IF c.exact /\ c.sig /\ ~(Near(x.Q, s.q)) THEN {"C17:sum of squares"} ELSE {},
    IF c.exact /\ c.sig /\ ~(Near(x.V, s.n * s.q - s.s * s.s)) THEN {"C17:standard deviation"} ELSE {}}
LAfter(c, s, e) == Step(c, s, e)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- LInit, TJudge <- LJudge, TAfter <- LAfter
=============================================================================
