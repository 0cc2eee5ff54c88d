---------------------------- MODULE MaxListTrace ----------------------------
EXTENDS MaxList, TLC, TraceData
VARIABLES t, i, st
MInit(c) == <<>>
After(c, s, e) == IF e.op = "update" THEN Update(s, c.n, c.r, e.q, e.lab) ELSE Limit(s, e.rr)
MJudge(c, s, e) == LET r == After(c, s, e) IN UNION {
  IF e.r = "ok" THEN {} ELSE {"C12:" \o e.op \o " raised"},
  IF e.len = Len(r) THEN {} ELSE {"C12:number of entries"},
  IF [j \in 1..Len(e.l) |-> [q |-> e.l[j][1], lab |-> e.l[j][2]]] = r THEN {} ELSE {"C12:wrong entries"},
  IF e.tag THEN {} ELSE {"C12:labels were altered"}}
MAfter(c, s, e) == After(c, s, e)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- MInit, TJudge <- MJudge, TAfter <- MAfter
=============================================================================
