----------------------------- MODULE RngTrace -----------------------------
(* Judges recorded histories of the global generator.  pre/post identify   *)
(* the stream it would produce; files those held by the files, found by    *)
(* restoring each in a separate process.                                   *)
EXTENDS RngStore, TraceData
VARIABLES t, i, st
Fn(q) == [n \in {q[j][1] : j \in 1..Len(q)} |-> (LET j == CHOOSE j \in 1..Len(q) : q[j][1] = n IN q[j][2])]
RInit(c) == [cur |-> 0, files |-> Empty]
At(s, e) == [s EXCEPT !.cur = e.pre]
After(s, e) == CASE e.op = "save" -> SaveR(At(s, e), e.p)
                 [] e.op = "restore" -> RestoreR(At(s, e), e.p)
                 [] e.op = "ext" -> [cur |-> e.post, files |-> IF e.rm THEN [x \in DOMAIN s.files \ {e.p} |-> s.files[x]] ELSE IF e.p \in DOMAIN s.files THEN Put(s.files, e.q, s.files[e.p]) ELSE s.files]
                 [] OTHER -> [At(s, e) EXCEPT !.cur = e.post]
RJudge(c, s, e) == LET r == After(s, e) IN UNION {
  IF e.r = "ok" THEN {} ELSE {"C11:" \o e.op \o " raised"},
  IF s.cur \in {0, e.pre} THEN {} ELSE {"C11:stream changed between operations"},
  IF e.post = r.cur THEN {} ELSE {"C11:wrong stream after " \o e.op},
  IF e.same THEN {} ELSE {"C11:draws differ from the stream"},
  IF Fn(e.files) = r.files THEN {} ELSE {"C11:state files differ after " \o e.op}}
RAfter(c, s, e) == After(s, e)
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- RInit, TJudge <- RJudge, TAfter <- RAfter
=============================================================================
