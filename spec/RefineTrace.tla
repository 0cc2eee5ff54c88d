---------------------------- MODULE RefineTrace ----------------------------
(* Judges recorded refinements.  Positions and steps are integers in units *)
(* of 2.5e-9 of the base (of its logarithm for log lists); ka, kb are exact. *)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
ILt(x, y) == x < y
ILe(x, y) == x <= y + 3 + y \div 200000
IAdd(x, y) == x + y
ISub(x, y) == x - y
IDivN(x, n) == x \div n
IWide(x, y) == x > y + 6 + y \div 100000000
T == INSTANCE Tiling WITH Lt <- ILt, Le <- ILe, Add <- IAdd, Sub <- ISub, DivN <- IDivN, Wide <- IWide
IsTiled(c, L) ==
  /\ Len(L) >= 1 /\ L[1].ka = c.lo /\ L[Len(L)].kb = c.hi
  /\ \A j \in 1..Len(L) : FLt([k |-> L[j].ka], [k |-> L[j].kb]) /\ L[j].n >= 2
  /\ \A j \in 1..Len(L) - 1 : L[j].kb = L[j + 1].ka
StepOk(L) == \A j \in 1..Len(L) : LET w == (L[j].b - L[j].a) \div (L[j].n - 1) IN L[j].s >= w - 4 /\ L[j].s <= w + 4
RECURSIVE Total(_, _)
Total(L, k) == IF k = 0 THEN 0 ELSE Total(L, k - 1) + L[k].n - 1
In(L, j, x) == FLe([k |-> L[j].ka], x) /\ (FLt(x, [k |-> L[j].kb]) \/ (j = Len(L) /\ x.k = L[j].kb))
QFails(c, L, e) == UNION {
  IF e.npts = Total(L, Len(L)) + 1 THEN {} ELSE {"C13:wrong number of points"},
  UNION {LET q == e.loc[z] IN
     IF FLt(q.x, [k |-> c.lo]) \/ FLt([k |-> c.hi], q.x)
     THEN IF q.r = "ValueError" THEN {} ELSE {"C13:location outside accepted"}
     ELSE IF q.r = "ok" /\ q.j \in 1..Len(L) /\ In(L, q.j, q.x) THEN {} ELSE {"C13:wrong interval for a location"} : z \in 1..Len(e.loc)},
  UNION {LET q == e.nl[z] IN
     IF q.n < 0 \/ q.n > e.npts - 1
     THEN IF q.r = "ValueError" THEN {} ELSE {"C13:point number outside accepted"}
     ELSE IF /\ q.r = "ok" /\ q.j \in 1..Len(L) /\ q.same
             /\ q.n = Total(L, q.j - 1) + q.x
             /\ q.x >= 0 /\ (q.x < L[q.j].n - 1 \/ (q.j = Len(L) /\ q.x = L[q.j].n - 1)) THEN {}
     ELSE {"C13:wrong interval or offset for a point number"} : z \in 1..Len(e.nl)}}
RInit(c) == <<>>
Sh(L) == [j \in 1..Len(L) |-> [a |-> L[j].a, b |-> L[j].b, s |-> L[j].s, n |-> L[j].n]]
RJudge(c, s, e) ==
  LET L == e.l IN
  IF ~IsTiled(c, L) THEN {"C13:intervals do not tile the base"}
  ELSE IF ~StepOk(L) THEN {"C13:step does not belong to the interval"}
  ELSE UNION {QFails(c, L, e),
    IF e.op = "init" THEN (IF Len(L) = 1 /\ e.r = "ok" /\ L[1].n = c.n THEN {} ELSE {"C13:wrong base"})
    ELSE LET O == s
             lo == IF e.lo < 0 THEN 0 ELSE e.lo
             hi == IF e.hi > 400000000 THEN 400000000 ELSE e.hi
         IN IF e.out THEN (IF e.r = "ValueError" /\ L = O THEN {} ELSE {"C13:range outside the base not rejected cleanly"})
            ELSE UNION {
              IF e.r = "ok" THEN {} ELSE {"C13:refinement rejected"},
              IF T!NeverCoarser(O, L) THEN {} ELSE {"C13:resolution was lost"},
              IF T!Dense(O, L, lo, hi, e.n) THEN {} ELSE {"C13:range not sampled as densely as requested"},
              IF T!CoarserKeeps(O, L, lo, hi, e.n) THEN {} ELSE {"C13:coarser refinement changed the list"},
              IF T!OutsideKept(O, L, lo, hi) THEN {} ELSE {"C13:sampling changed outside the range"}}}
RAfter(c, s, e) == e.l
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- RInit, TJudge <- RJudge, TAfter <- RAfter
=============================================================================
