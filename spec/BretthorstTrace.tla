-------------------------- MODULE BretthorstTrace --------------------------
(* Judges recorded statistics (in hundredths) against Bretthorst.          *)
EXTENDS Bretthorst, TLC, TraceData
VARIABLES t, i, st
Ab(x) == IF x < 0 THEN -x ELSE x
\* got (in hundredths) is num / det
Is(got, num, det) == Ab(got * det - 100 * num) <= 2 * det
Fails(c, s, e) ==
  LET P == Target(s, e.op, e.p)
      det == Det(c, P)
  IN IF e.r # Outcome(c, s, e.op, e.p)
     THEN {"C26:" \o e.op \o (IF e.r = "ok" THEN " accepted" ELSE " rejected")}
     ELSE IF e.r # "ok" THEN {}
     ELSE IF e.op = "marg" THEN UNION {
            IF Is(e.Q, Q(c, P), det) THEN {} ELSE {"C26:quadratic form"},
            IF Is(e.S, Suf(c, P), det) THEN {} ELSE {"C26:sufficient statistic"},
            IF e.J = det THEN {} ELSE {"C26:Jacobian"}}
     ELSE IF e.op = "ampl" THEN
            IF Len(e.v) = c.m /\ \A k \in 1..c.m : Is(e.v[k], Amp(c, k, P), det) THEN {} ELSE {"C26:amplitudes"}
     ELSE IF e.op = "covar" THEN
            IF Len(e.v) = c.m /\ \A j \in 1..c.m : Len(e.v[j]) = c.m /\ \A k \in 1..c.m : Is(e.v[j][k], Cov(c, j, k, P), det)
            THEN {} ELSE {"C26:covariance"}
     ELSE IF Len(e.v) = N(c) /\ \A k \in 1..N(c) : Is(e.v[k], Res(c, k, P), det) THEN {} ELSE {"C26:residuals"}
BJudge(c, s, e) == IF e.op = "make" THEN IF e.r = (IF e.ok THEN "ok" ELSE "err") THEN {} ELSE {"C26:data accepted or rejected wrongly"}
                   ELSE UNION {Fails(c, s, e), IF e.kept THEN {} ELSE {"C26:the caller's data changed"}}
BInit(c) == <<>>
BAfter(c, s, e) == IF e.op = "make" THEN s ELSE After(c, s, e.op, e.p)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- BInit, TJudge <- BJudge, TAfter <- BAfter
=============================================================================
