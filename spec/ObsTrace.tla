----------------------------- MODULE ObsTrace -----------------------------
(* Judges recorded computations of the observed information.               *)
EXTENDS LinScore, FloatRec, FiniteSets, TLC, TraceData
VARIABLES t, i, st
Pos(c, n) == CHOOSE j \in 1..Len(c.names) : c.names[j] = n
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE SumD(_, _, _)
SumD(ds, p, k) == IF k > Len(ds) THEN 0 ELSE ds[k].z * ds[k].z * Pow(ds[k].x, p) + SumD(ds, p, k + 1)
RECURSIVE SumA(_, _, _)
SumA(data, p, k) == IF k > Len(data) THEN 0 ELSE SumD(data[k], p, 1) + SumA(data, p, k + 1)
\* four times the negative second derivative with respect to coefficients j and k (0-based powers)
Info4(c, j, k) == SumA(c.data, j + k, 1)
InRange(v, p) == IsF(p.lo) => FLe(p.lo, v) /\ FLe(v, p.hi)
Near(a, b) == Abs(a.m - b.m) <= 20 + Abs(b.m) \div 50000000 /\ ~Sat(a.m)
OFails(c, e) == UNION {
  IF e.a.fx = e.b.fx /\ e.a.sp = e.b.sp /\ e.a.vy = e.b.vy THEN {} ELSE {"C25:status lists changed"},
  IF \A k \in 1..Len(c.names) : e.a.p[k].s = e.b.p[k].s /\ FEq(e.a.p[k].lo, e.b.p[k].lo) /\ FEq(e.a.p[k].hi, e.b.p[k].hi) /\ FEq(e.a.p[k].dl, e.b.p[k].dl) /\ e.a.p[k].ix = e.b.p[k].ix
    THEN {} ELSE {"C25:status, range, scale or step changed"},
  IF \A k \in 1..Len(c.names) : FEq(e.a.p[k].v, e.b.p[k].v) THEN {} ELSE {"C25:parameters are not left where they were"},
  IF \A k \in 1..Len(c.names) : IsF(e.seen[k].mn) =>
       IF e.b.p[k].s = "varying" THEN InRange(e.seen[k].mn, e.b.p[k]) /\ InRange(e.seen[k].mx, e.b.p[k])
       ELSE FEq(e.seen[k].mn, e.b.p[k].v) /\ FEq(e.seen[k].mx, e.b.p[k].v)
    THEN {} ELSE {"C25:evaluated with a fixed parameter changed or outside the allowed range"},
  IF e.kept THEN {} ELSE {"C25:the caller's steps were modified"},
  IF Sat(e.i1.m) \/ Near(e.s1, e.i1) THEN {} ELSE {"C25:score afterwards"},
  IF e.r = "hang" THEN {"C25:does not finish"}
  ELSE IF e.r = "err" THEN IF e.atmode /\ e.wide THEN {"C25:raised at a mode"} ELSE {}
  ELSE UNION {
    IF e.shape = <<e.n, e.n>> /\ e.tuple = e.err THEN {} ELSE {"C25:form of the result"},
    IF e.shape # <<e.n, e.n>> \/ ~e.atmode THEN {} ELSE
      LET P(j) == Pos(c, e.b.vy[j]) - 1 IN UNION {
      IF \A j, k \in 1..e.n : e.I4[j][k] = Info4(c, P(j), P(k)) /\ Abs(e.dev[j][k]) <= 2000 THEN {}
      ELSE {"C25:not the negative second derivatives of the log posterior"},
      IF e.er = <<>> \/ \A j, k \in 1..e.n : Abs(e.er[j][k]) <= 20000 THEN {} ELSE {"C25:error estimate of an exact result"}}}}
OInit(c) == 0
OAfter(c, s, e) == s
OJudge(c, s, e) == OFails(c, e)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- OInit, TJudge <- OJudge, TAfter <- OAfter
=============================================================================
