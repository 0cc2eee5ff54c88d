---------------------------- MODULE ColumnsTrace ----------------------------
(***************************************************************************)
(* Judges the reading of columns: c.lines is the file; "skip" consumes a   *)
(* header line, "read" reads columns of the types e.ts with what was       *)
(* returned; the position is part of the state.                            *)
(***************************************************************************)
EXTENDS Columns, TLC, TraceData
VARIABLES t, i, st
CInit(c) == [pos |-> 0, known |-> TRUE]
If(b, x) == IF b THEN {x} ELSE {}
CJudge(c, s, e) ==
  CASE e.op = "skip" -> {}
    [] e.op = "kept" -> If(~e.ok, "C29:the list of types was changed")
    [] e.op = "read" ->
      LET L == Rest(c.lines, s.pos) IN
      IF ~s.known THEN {}
      ELSE IF ~AllGood(e.ts, L) THEN If(e.r = "ok", "C29:malformed line accepted")
      ELSE IF e.r # "ok" THEN {"C29:readable columns refused"}
      ELSE UNION {If(Len(e.cols) # Len(e.ts), "C29:number of columns"),
                  If(e.cols # Expected(e.ts, L), "C29:values of the columns"),
                  If(~e.kind, "C29:kind of the columns")}
\* after an error the position in the file is not specified
CAfter(c, s, e) ==
  CASE e.op = "skip" -> [s EXCEPT !.pos = IF @ < Len(c.lines) THEN @ + 1 ELSE @]
    [] e.op = "read" -> IF e.r = "ok" THEN [s EXCEPT !.pos = Len(c.lines)] ELSE [s EXCEPT !.known = FALSE]
    [] OTHER -> s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- CInit, TJudge <- CJudge, TAfter <- CAfter
=============================================================================
