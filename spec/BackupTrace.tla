---------------------------- MODULE BackupTrace ----------------------------
(* Judges recorded overwrites: completed, crashed at some executed line,   *)
(* or with a failing file operation.                                       *)
EXTENDS Backup, TraceData
VARIABLES t, i, st
Dir(q) == [n \in {q[j][1] : j \in 1..Len(q)} |-> (LET j == CHOOSE j \in 1..Len(q) : q[j][1] = n IN q[j][2])]
BInit(c) == <<>>
BAfter(c, s, e) == e.post
BJudge(c, s, e) ==
  IF e.op = "ext" THEN {}
  ELSE LET D == Dir(e.pre)
           E == Dir(e.post)
           n0 == e.n[1] n1 == e.n[2] n2 == e.n[3]
           v == IF e.v # 0 THEN e.v ELSE IF Has(E, n0) THEN E[n0] ELSE 0
           \* a generator state cannot be restored from a file that holds none
           nostate == e.kind = "rng0" /\ Has(D, n0)
           done == CASE e.kind = "backup" -> E = Rotate(D, n0, n1, n2)
                     [] e.kind = "rng0" -> IF Has(D, n0) THEN E = D ELSE E = Put(D, n0, v) /\ Has(E, n0)
                     [] OTHER -> Has(E, n0) /\ E = Saved(D, n0, n1, n2, v)
       IN UNION {
         IF s = <<>> \/ s = e.pre THEN {} ELSE {"C09:directory changed outside the operations"},
         IF e.m = "normal" /\ e.r # "ok" /\ ~nostate THEN {"C09:overwrite raised"} ELSE {},
         IF e.r = "died" THEN {"C09:process died"} ELSE {},
         IF e.m = "crash" /\ e.r \notin {"crash", "ok"} /\ ~nostate THEN {"C09:overwrite raised"} ELSE {},
         IF e.r = "ok" /\ ~done THEN {"C09:wrong files after a completed overwrite"} ELSE {},
         IF e.r = "ok" /\ ~e.md THEN {"C09:file not opened as requested"} ELSE {},
         IF nostate /\ E # D THEN {"C09:restoring changed files"} ELSE {},
         IF e.r # "ok" /\ ~Safe(D, E, n0, n1, n2) THEN {"C09:a recent version or another file was lost"} ELSE {},
         IF e.r = "ok" /\ e.kind # "rng0" /\ ~Safe(D, E, n0, n1, n2) THEN {"C09:a recent version was lost"} ELSE {}}
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- BInit, TJudge <- BJudge, TAfter <- BAfter
=============================================================================
