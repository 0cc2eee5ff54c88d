---------------------------- MODULE StoresTrace ----------------------------
(* Judges recorded histories of store operations against Stores.           *)
EXTENDS Stores, TraceData
VARIABLES t, i, st
Fn(q) == [n \in {q[j][1] : j \in 1..Len(q)} |-> (LET j == CHOOSE j \in 1..Len(q) : q[j][1] = n IN q[j][2])]
Files(q) == [p \in {q[j][1] : j \in 1..Len(q)} |-> Fn((LET j == CHOOSE j \in 1..Len(q) : q[j][1] = p IN q[j])[2])]
SInit(c) == [files |-> Empty, st |-> Empty]
R(s, e) == CASE e.op = "new" -> New(s, e.o, Fn(e.kw))
             [] e.op = "open" -> Open(s, e.o, e.p, Fn(e.kw))
             [] e.op \in {"set", "mod"} -> Assign(s, e.o, e.n, e.v, e.okv)
             [] e.op = "save" -> Save(s, e.o, e.p, e.okv)
             [] e.op = "file" -> [ok |-> TRUE, W |-> [s EXCEPT !.files = PutF(@, e.p, Fn(e.kw))]]
             [] OTHER -> [ok |-> TRUE, W |-> s]
GetFails(s, o, n, g) ==  \* g = <<found, value>>
  IF o \notin DOMAIN s.st THEN {}
  ELSE IF n \in DOMAIN View(s.st[o])
       THEN IF g[1] # "ok" THEN {"C10:stored name is missing"} ELSE IF g[2] = View(s.st[o])[n] THEN {} ELSE {"C10:wrong value"}
       ELSE IF g[1] = "attr" THEN {} ELSE {"C10:missing name did not raise AttributeError"}
SJudge(c, s, e) ==
  LET r == R(s, e) IN UNION {
    IF e.op \in {"new", "open", "set", "save"} /\ e.r # (IF r.ok THEN "ok" ELSE "err")
      THEN {"C10:" \o e.op \o (IF r.ok THEN " rejected" ELSE " accepted")} ELSE {},
    IF e.op = "get" THEN GetFails(s, e.o, e.n, e.g) ELSE {},
    IF e.op = "all" THEN UNION {GetFails(s, e.o, e.gs[j][1], e.gs[j][2]) : j \in 1..Len(e.gs)} ELSE {},
    IF e.op \in {"contents", "all"} THEN
      (IF e.r # "ok" THEN {"C10:contents raised"}
       ELSE IF Len(e.c) = Cardinality(DOMAIN View(s.st[e.o])) /\ {e.c[j] : j \in 1..Len(e.c)} = DOMAIN View(s.st[e.o]) THEN {}
       ELSE {"C10:contents differ"}) ELSE {},
    IF Files(e.files) = r.W.files THEN {} ELSE {"C10:files differ after " \o e.op}}
SAfter(c, s, e) == R(s, e).W
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- SInit, TJudge <- SJudge, TAfter <- SAfter
=============================================================================
