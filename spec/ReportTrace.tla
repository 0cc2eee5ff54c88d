---------------------------- MODULE ReportTrace ----------------------------
(* Judges recorded reports and default plots against Report.  s.now is the *)
(* observed state [v, fx, sp, vy] of the inference, s.ax what each         *)
(* parameter was last asked to step over, s.kept what was taken and when.  *)
EXTENDS Report, TLC, TraceData
VARIABLES t, i, st
RInit(c) == [now |-> c.now, ax |-> [k \in 1..Len(c.names) |-> [a |-> 0, b |-> 0, n |-> 0, k |-> "no"]], kept |-> <<>>]
If(b, x) == IF b THEN {x} ELSE {}
Reports == {"show", "status", "pshow", "text", "plot", "snap"}
RJudge(c, s, e) ==
  UNION {
   If(e.op \in Reports /\ e.now # s.now, "C33:a report changed the inference"),
   CASE e.op \in {"set", "grid"} -> {}       \* what these do is judged elsewhere
     [] e.op = "check" -> IF ~e.vy THEN If(e.r # "err", "C33:distance from bounds told of a fixed parameter")
                          ELSE If(e.r # "ok" \/ (e.yes # Away(e.v, e.a, e.b, e.pc) /\ ~Edge(e.v, e.a, e.b, e.pc)), "C33:distance from bounds")
     [] e.op = "snap" -> If(e.r # "ok", "C33:snapshot refused")
     [] e.op = "show" -> If(e.r # "ok" \/ e.lines # Lines(c.names, c.docs, s.now.v), "C33:report of the parameters")
     [] e.op = "pshow" -> If(e.r # "ok" \/ e.lines # <<Lines(c.names, c.docs, s.now.v)[e.p]>>, "C33:report of a parameter")
     [] e.op = "status" -> If(e.r # "ok" \/ e.fx # s.now.fx \/ e.sp # s.now.sp \/ e.vy # s.now.vy, "C33:report of the statuses")
     [] e.op = "text" ->
          LET g == s.kept[e.k] IN
          If(e.r # "ok" \/ e.lines # (IF g.w = "snap" THEN Lines(c.names, c.docs, g.v) ELSE g.axes), "C33:text of a kept " \o g.w)
     [] e.op = "plot" ->
          LET g == s.kept[e.k]
              n == Len(g.axes) IN
          IF e.r # PlotOutcome(g.axes) THEN {"C33:plot " \o e.r}
          ELSE IF e.r # "ok" THEN {}
          ELSE UNION {
            If(e.newfig # (IF e.over THEN 0 ELSE 1), "C33:number of figures"),
            If(e.labels # <<g.axes[1].n, IF n = 2 THEN g.axes[2].n ELSE IF e.ylab = "" THEN "Log Score" ELSE e.ylab>>, "C33:labels"),
            If(e.lost > 0, "C33:an overlay removed what was there"),
            If(n = 1 /\ (e.nline # 1 \/ e.x # PlotX(g.axes[1].c) \/ e.y # g.y), "C33:plotted line")},
   \* what was taken stays as it was
   If(e.same # [k \in 1..Len(s.kept) |-> s.kept[k].y], "C33:entries of a kept grid changed")}
RAfter(c, s, e) ==
  [now |-> e.now,
   ax |-> IF e.op = "set" /\ e.ax.k # "no" THEN [s.ax EXCEPT ![e.p] = e.ax] ELSE s.ax,
   kept |-> CASE e.op = "snap" -> Append(s.kept, [w |-> "snap", v |-> s.now.v, axes |-> <<>>, y |-> <<>>])
              [] e.op = "grid" -> s.kept \o [j \in 1..Len(e.y) |->
                                              [w |-> "grid", v |-> <<>>, axes |-> Axes(c.names, s.now.sp, s.ax), y |-> e.y[j]]]
              [] OTHER -> s.kept]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- RInit, TJudge <- RJudge, TAfter <- RAfter
=============================================================================
