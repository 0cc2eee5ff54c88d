--------------------------- MODULE GridFitTrace ---------------------------
(* Judges recorded evaluations (score, optimum, grid) of inferences.       *)
EXTENDS LinScore, FloatRec, FiniteSets, TLC, TraceData
VARIABLES t, i, st
Near(a, b) == Abs(a.m - b.m) <= 20 /\ ~Sat(a.m) /\ ~Sat(b.m)
\* recorded scores compare in the sense of the statistic (tolerance 1e-8 relative)
NotWorse(c, a, b) == ~Sat(a.m) /\ ~Sat(b.m) /\ IF Maximised(c) THEN a.m >= b.m - 20 ELSE a.m <= b.m + 20
Set(q) == {q[j] : j \in 1..Len(q)}
Pos(c, n) == CHOOSE j \in 1..Len(c.names) : c.names[j] = n
\* parameter vector: base values with some replaced
RECURSIVE Put(_, _, _, _, _)
Put(c, q, ns, vs, k) == IF k > Len(ns) THEN q ELSE Put(c, [q EXCEPT ![Pos(c, ns[k])] = vs[k]], ns, vs, k + 1)
\* h (units of 1/8192) must compete with candidate score s: 1% + 0.02 allowance
Compete(c, h, s) == IF Maximised(c) THEN h >= s - Abs(s) \div 100 - 164 ELSE h <= s + Abs(s) \div 100 + 164
FixedOk(c, e) == \A k \in 1..Len(c.names) : e.b.p[k].s = "fixed" => e.qx[k]
\* The optimum is promised where it is far from the bounds.
Determined(c, e, cand) == FixedOk(c, e) /\ e.wide
InRange(v, p) == IsF(p.lo) => FLe(p.lo, v) /\ FLe(v, p.hi)
StateKept(c, e, tag) == UNION {
   IF e.a.fx = e.b.fx /\ e.a.sp = e.b.sp /\ e.a.vy = e.b.vy THEN {} ELSE {tag \o ":status lists changed by an evaluation"},
   IF \A k \in 1..Len(c.names) : /\ e.a.p[k].s = e.b.p[k].s /\ FEq(e.a.p[k].lo, e.b.p[k].lo) /\ FEq(e.a.p[k].hi, e.b.p[k].hi) /\ FEq(e.a.p[k].dl, e.b.p[k].dl)
      THEN {} ELSE {tag \o ":status or range changed by an evaluation"},
   IF \A k \in 1..Len(c.names) : e.b.p[k].s = "fixed" => FEq(e.a.p[k].v, e.b.p[k].v) /\
        (IsF(e.seen[k].mn) => FEq(e.seen[k].mn, e.b.p[k].v) /\ FEq(e.seen[k].mx, e.b.p[k].v))
      THEN {} ELSE {tag \o ":fixed parameter changed by an evaluation"},
   IF \A k \in 1..Len(c.names) : e.b.p[k].s = "varying" /\ IsF(e.seen[k].mn) =>
        InRange(e.seen[k].mn, e.b.p[k]) /\ InRange(e.seen[k].mx, e.b.p[k])
      THEN {} ELSE {tag \o ":evaluated outside the allowed range"}}
ScoreFails(c, e) == UNION {
   IF FEq(e.res, e.s0) THEN {} ELSE {"C24+C04:fit() without free parameters is not the score"},
   IF \A k \in 1..Len(c.names) : e.qx[k] => TRUE THEN {} ELSE {},
   IF (\A k \in 1..Len(c.names) : e.qx[k]) => (e.h = Score(c, e.q) /\ Abs(e.hr) <= 100)
      THEN {} ELSE {"C24+C04:score differs from the statistic of the data"}}
OptFails(c, e) == LET n == Len(e.b.vy) IN
   IF Len(e.ps) # n THEN {"C24:wrong number of fitted values"} ELSE UNION {
   IF \A k \in 1..n : FEq(e.ps[k], e.a.p[Pos(c, e.b.vy[k])].v) THEN {} ELSE {"C24:model is not left at the returned values"},
   IF Near(e.sc, e.ind) /\ Near(e.sc, e.s1) THEN {} ELSE {"C24:returned score is not the score of the returned values"},
   IF NotWorse(c, e.sc, e.s0) THEN {} ELSE {"C24:fit worsened the score"},
   IF \A k \in 1..n : InRange(e.ps[k], e.b.p[Pos(c, e.b.vy[k])]) THEN {} ELSE {"C24:fitted value out of range"},
   IF Determined(c, e, e.cand) => Compete(c, e.h, Score(c, Put(c, e.q, e.b.vy, e.cand, 1))) THEN {}
   ELSE {"C24:fit is beaten by the least-squares solution"}}
Prod2(s) == LET RECURSIVE P(_)
                P(k) == IF k > Len(s) THEN 1 ELSE s[k] * P(k + 1)
            IN P(1)
EntFails(c, e, x, vary) == UNION {
   IF vary THEN {} ELSE
     IF FixedOk(c, e) => (x.h = Score(c, Put(c, e.q, e.b.sp, x.q, 1)) /\ Abs(x.hr) <= 100) THEN {}
     ELSE {"C04:entry is not the score at its grid point"},
   IF Near(x.v, x.ind) THEN {} ELSE {"C04:entry is not the score of its grid point and companion"},
   IF Near(x.v, x.tw) THEN {} ELSE {"C04:entry depends on whether the companion grid was requested"},
   IF ~vary THEN {} ELSE
     IF \A k \in 1..Len(e.b.vy) : InRange(x.th[k], e.b.p[Pos(c, e.b.vy[k])]) THEN {} ELSE {"C04:companion out of range"},
   IF ~vary THEN {} ELSE
     IF FixedOk(c, e) /\ e.wide => Compete(c, x.h, Score(c, Put(c, Put(c, e.q, e.b.sp, x.q, 1), e.b.vy, x.cand, 1))) THEN {}
     ELSE {"C04+C24:profile entry is beaten by the least-squares solution"}}
GridFails(c, e) ==
  LET vary == Len(e.b.vy) > 0
      sh == [k \in 1..Len(e.b.sp) |-> Len(e.grid[e.b.sp[k]].v)]
  IN IF e.shape # sh \/ e.shape2 # sh \/ Len(e.axes) # Len(sh) \/ Len(e.ent) # Prod2(sh) THEN {"C04:grid shape"}
     ELSE UNION {
   IF \A k \in 1..Len(sh) : LET a == e.axes[k] g == e.grid[e.b.sp[k]] IN
        /\ a.n = e.b.sp[k] /\ a.k = Len(g.v) /\ a.ty = g.ty /\ FEq(a.lo, g.lo) /\ FEq(a.hi, g.hi)
     THEN {} ELSE {"C04:axes"},
   UNION {EntFails(c, e, e.ent[k], vary) : k \in 1..Len(e.ent)},
   IF \A k \in 1..Len(e.b.sp) : LET p == e.a.p[Pos(c, e.b.sp[k])] IN p.ix = 0 /\ FEq(p.v, e.grid[e.b.sp[k]].lo)
     THEN {} ELSE {"C04:stepping parameters not back at the first step"},
   IF Near(e.s1, e.i1) THEN {} ELSE {"C04:score after the grid"},
   IF e.isvg = (e.vg /\ vary) THEN {} ELSE {"C04:companion grid returned or missing"},
   IF ~vary THEN {} ELSE UNION {
     IF FEq(e.ov, e.oiv) THEN {} ELSE {"C04:best value is not the entry at the best index"},
     IF \A k \in 1..Len(e.ent) : IF Maximised(c) THEN FLe(e.ent[k].v, e.ov) ELSE FLe(e.ov, e.ent[k].v)
       THEN {} ELSE {"C04:best value is not the extreme entry"},
     IF e.voi = e.oi THEN {} ELSE {"C04:best index of the companion"},
     IF ~e.isvg \/ e.vshape = (IF Len(e.b.vy) > 1 THEN sh \o <<Len(e.b.vy)>> ELSE sh) THEN {} ELSE {"C04:companion shape"}}}
FInit(c) == 0
FAfter(c, s, e) == s
FJudge(c, s, e) ==
  IF e.op = "summary" THEN IF 20 * e.err <= e.fits + 60 THEN {} ELSE {"C24+C04:fits fail to converge"}
  ELSE IF e.op = "refuse" THEN UNION {
     IF e.r = "err" /\ e.exc = "InferenceError" THEN {} ELSE {"C24:unknown method accepted"},
     IF e.a = e.b THEN {} ELSE {"C24:a refused fit changed the model"}}
  ELSE UNION {StateKept(c, e, IF e.kind = "grid" THEN "C04" ELSE "C24"),
   IF Near(e.s0, e.i0) THEN {} ELSE {"C04+C24:score differs from the statistic of the data"},
   IF e.r = "hang" THEN {"C04+C24:evaluation does not finish"}
   ELSE IF e.r = "err" THEN
     IF e.exc = "IterErr" /\ Len(e.b.vy) > 0 THEN {}
     ELSE IF e.exc = "ParamRangeError" /\ Len(e.b.vy) > 0 /\ ~e.map THEN {}
     ELSE {"C04+C24:evaluation raised"}
   ELSE CASE e.kind = "score" -> ScoreFails(c, e)
          [] e.kind = "opt" -> OptFails(c, e)
          [] e.kind = "grid" -> GridFails(c, e)}
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- FInit, TJudge <- FJudge, TAfter <- FAfter
=============================================================================
