---------------------------- MODULE ContourTrace ----------------------------
(***************************************************************************)
(* Judges plots of bivariate functions.  c.z is the table with x along its *)
(* first index whatever the index order used; e.lev the levels asked for   *)
(* (thousandths below the maximum, in the order asked), e.cyc their        *)
(* colours; e.drawn the contours drawn: level, colour, width, points.      *)
(***************************************************************************)
EXTENDS Contour, TLC, TraceData
VARIABLES t, i, st
CInit(c) == 0
If(b, x) == IF b THEN {x} ELSE {}
Range(s) == {s[k] : k \in 1..Len(s)}
Asked(c, e) == CASE e.how = "default" -> Standard
                 [] e.how = "p" -> [k \in 1..Len(e.p) |-> PLevel(e.p[k])]
                 [] OTHER -> [k \in 1..Len(e.lev) |-> e.lev[k] - 1000 * ZMax(c.z)]
MinOf(s) == CHOOSE m \in Range(s) : \A k \in 1..Len(s) : m <= s[k]
Close(a, b) == a - b <= 2 /\ b - a <= 2
\* nearest grid point of a place given in quarters of a grid step (never half way)
NearIdx(q) == ((q + 2) \div 4) + 1
CJudge(c, s, e) ==
  CASE e.op = "plot" ->
      IF ~e.legal THEN If(e.r # "ValueError", "C31+C33:unknown index order accepted")
      ELSE IF e.r # "ok" THEN {"C31+C33:plot refused"}
      ELSE LET L == Asked(c, e) IN
        UNION {If(Len(e.drawn) # Len(L), "C31+C33:number of contours"),
               UNION {LET H == {d \in Range(e.drawn) : Close(d.lev, L[k])} IN
                      UNION {If(H = {}, "C31+C33:contour level"),
                             If(\E d \in H : d.col # e.cyc[((k - 1) % Len(e.cyc)) + 1], "C31+C33:colour of a contour"),
                             If(\E d \in H : d.lw # e.lw, "C31+C33:width of a contour"),
                             If(\E d \in H : ~SamePoints(Crossings(Rel(c.z), L[k]), Range(d.pts), 15), "C31+C33:course of a contour")} : k \in 1..Len(L)},
               If(e.newfig # e.wantfig, "C31+C33:number of figures"),
               If(e.labels # <<e.xlabel, e.ylabel>>, "C31+C33:axis labels"),
               If(~e.kept, "C31+C33:the caller's data were changed"),
               \* the image: e.gs tenths times the lowest level is black, the maximum white
               If((e.gs > 0) # (e.img # <<>>), "C31+C33:image shown or not"),
               IF e.gs > 0 /\ e.img # <<>> THEN
                 UNION {If(e.img # Rel(c.z), "C31+C33:image"),
                        If(e.ext # <<0, 10000 * (NX(c.z) - 1), 0, 10000 * (NY(c.z) - 1)>>, "C31+C33:extent of the image"),
                        If(MinOf(L) < 0 /\ (e.hi # 0 \/ LET d == e.lo - (e.gs * MinOf(L)) \div 10 IN d < -(e.gs \div 10) - 2 \/ d > (e.gs \div 10) + 2), "C31+C33:gray levels")}
               ELSE {},
               \* crosshair
               If(e.cross # <<>> /\ (e.cross[2] \notin Range(e.hor) \/ e.cross[1] \notin Range(e.ver)), "C31+C33:crosshair"),
               If(e.cross = <<>> /\ (e.hor # <<>> \/ e.ver # <<>>), "C31+C33:crosshair not asked for")}
    [] e.op = "coord" ->
      LET a == NearIdx(e.qx)
          b == NearIdx(e.qy)
          ins == e.qx >= 0 /\ e.qy >= 0 /\ e.qx <= 4 * (NX(c.z) - 1) /\ e.qy <= 4 * (NY(c.z) - 1)
          out == e.qx <= -8 \/ e.qy <= -8 \/ e.qx >= 4 * (NX(c.z) + 1) \/ e.qy >= 4 * (NY(c.z) + 1) IN
      IF e.r # "ok" THEN {"C31+C33:coordinate display failed"}
      ELSE IF ins THEN If(~e.hasz \/ e.z # Rel(c.z)[a][b], "C31+C33:value shown under the cursor")
      ELSE IF out THEN If(e.hasz, "C31+C33:value shown outside the grid")
      ELSE {}
CAfter(c, s, e) == s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- CInit, TJudge <- CJudge, TAfter <- CAfter
=============================================================================
