---------------------------- MODULE ScoreTrace ----------------------------
(* Judges recorded scores against Score.  c = [meth: method of each object,*)
(* q: initial parameters, d: original data, k0].                           *)
EXTENDS Score, TLC, TraceData
VARIABLES t, i, st
SInit(c) == [q |-> [o \in 1..Len(c.meth) |-> c.q], d |-> [o \in 1..Len(c.meth) |-> c.d]]
Expected(c, s, e) == CASE e.w \in {"score", "logp"} -> StatOf(c.meth[e.o], s.q[e.o], s.d[e.o], c.k0)
                       [] e.w = "chisqr" -> Chi2(s.q[e.o], s.d[e.o][e.p])
                       [] e.w = "loglike" -> LogL(s.q[e.o], s.d[e.o][e.p])
Touched(c, s, e) == IF e.w \in {"score", "logp"} THEN 1..Len(c.d) ELSE {e.p}
\* a new stepping grid puts the other stepping parameters of the object at their first step
After1(c, s, e) == CASE e.op = "set" -> [s EXCEPT !.q[e.o] = [e.q[e.o] EXCEPT ![e.p] = e.v]]
                     [] e.op = "data" -> [s EXCEPT !.d[e.o][e.p] = e.d]
                     [] OTHER -> s
SJudge(c, s, e) ==
  LET n == After1(c, s, e) IN UNION {
   IF e.op # "ask" THEN {} ELSE
     IF e.bad THEN (IF e.r = "err" /\ e.exc = e.want THEN {} ELSE {"C32:an error raised by the model did not reach the caller"})
     ELSE IF e.r # "ok" THEN {"C32:" \o e.w \o " fails"}
     ELSE UNION {
       IF e.x /\ e.n = Expected(c, s, e) THEN {} ELSE {"C32:" \o e.w \o " is not that of the current data and parameters"},
       IF \A j \in Touched(c, s, e) : e.res[j] = [k \in 1..Len(s.d[e.o][j]) |-> Res(s.q[e.o], s.d[e.o][j][k])]
       THEN {} ELSE {"C32:residuals are not those of the current data and parameters"}},
   IF e.op = "ask" \/ e.r = "ok" THEN {} ELSE {"C32:operation rejected"},
   IF \A o \in 1..Len(c.meth) : e.q[o] = n.q[o] THEN {} ELSE {"C32:parameter values"},
   IF \A o \in 1..Len(c.meth) : e.dd[o] = n.d[o] THEN {} ELSE {"C32:data changed"}}
SAfter(c, s, e) == After1(c, s, e)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- SInit, TJudge <- SJudge, TAfter <- SAfter
=============================================================================
