----------------------------- MODULE AdaptTrace -----------------------------
(***************************************************************************)
(* Judges adaptive integrations.  For the vector integrator every group of *)
(* evaluations shows the box the rule was applied to ("reg", centre and    *)
(* half widths in units of 1/U of the region's half widths); the boxes     *)
(* must be the whole region followed by pairs of halves of boxes in hand.  *)
(* Integrals of polynomials over integer boxes are calculated here.        *)
(***************************************************************************)
EXTENDS CubMath, TLC, TraceData, FiniteSets
VARIABLES t, i, st
If(b, x) == IF b THEN {x} ELSE {}
Unit(c) == [c |-> [d \in 1..c.nd |-> 0], h |-> [d \in 1..c.nd |-> c.U]]
AInit(c) == [leaves |-> {}, half |-> <<>>]
Box(e) == [c |-> e.c, h |-> e.h]
\* the other half of the box that x is a half of, along d
Parent(x, d, up) == [c |-> [x.c EXCEPT ![d] = IF up THEN @ + x.h[d] ELSE @ - x.h[d]], h |-> [x.h EXCEPT ![d] = 2 * @]]
Parents(c, x) == {Parent(x, d, u) : d \in 1..c.nd, u \in BOOLEAN}
Near(x, y) == \A d \in DOMAIN x.c : x.c[d] - y.c[d] \in -2..2 /\ x.h[d] - y.h[d] \in -2..2
InHand(s, x) == {y \in s.leaves : Near(x, y)}
\* a and b are the two halves of y
Halves(c, a, b, y) == \E d \in 1..c.nd : \E u \in BOOLEAN : Near(Parent(a, d, u), y) /\ Near(Parent(b, d, ~u), y)
PolyVal(c, f) == SumSeq([j \in 1..Len(f.t) |->
   LET tm == f.t[j] IN tm[1] * ProdSeq([d \in 1..c.nd |-> Mom(c.lo[d], c.hi[d], tm[2][d])])
                       * (f.L \div ProdSeq([d \in 1..c.nd |-> tm[2][d] + 1]))])
AJudge(c, s, e) ==
  CASE e.op = "lost" -> {"C23:evaluations are not whole applications of the rule"}
    [] e.op = "reg" ->
         IF s.leaves = {} /\ s.half = <<>> THEN If(~Near(Box(e), Unit(c)), "C23:first box is not the region")
         ELSE IF s.half = <<>> THEN If(\A x \in Parents(c, Box(e)) : InHand(s, x) = {}, "C23:box is not half of a box in hand")
         ELSE If(\A y \in s.leaves : ~Halves(c, s.half[1], Box(e), y), "C23:box is not half of a box in hand")
    [] e.op = "res" ->
         UNION {If(~e.inside, "C23:evaluation outside the region"),
                If(e.r = "none", "C23:failure not reported"),
                If(e.r = "hang", "C23:does not end"),
                If(c.which = "vec" /\ c.budget > 0 /\ e.n > c.budget, "C23:budget exceeded"),
                If(c.which = "adapt" /\ c.budget > 0 /\ e.n > (5 * c.budget) \div 2 + 60, "C23:budget exceeded"),
                If(~c.valid /\ e.r = "ok", "C23:invalid request accepted"),
                If(e.r # "ok" /\ c.valid /\ e.r \notin {"RuntimeError", "ValueError"}, "C23:unexpected error"),
                IF e.r # "ok" THEN
                  UNION {If(c.valid /\ e.why \notin {"budget", "work"}, "C23:unexpected error"),
                         If(e.why = "budget" /\ c.valid /\ (IF c.which = "vec" THEN e.n + 2 * c.num <= c.budget ELSE 3 * e.n < c.budget), "C23:gave up within the budget")}
                ELSE UNION {If(e.neval # e.n, "C23:number of evaluations misreported"),
                            If(e.n < c.minp, "C23:fewer evaluations than required"),
                            If(~e.claim, "C23:returned without the requested accuracy"),
                            If(e.d > 1000, "C23:integral of a smooth function wrong"),
                            IF c.int THEN If(\E j \in 1..Len(c.f) : c.f[j].L > 0 /\ (e.q[j] # PolyVal(c, c.f[j]) \/ e.dq > 100), "C23:polynomial not integrated exactly") ELSE {}}}
    [] e.op = "same" -> If(~e.ok, "C23:repeated call differs")
    [] e.op = "boom" -> If(~e.ok, "C23:exception of the integrand lost")
    [] e.op = "part" -> If(e.d > 1000, "C23:parts do not add up to the whole")
AAfter(c, s, e) ==
  IF e.op # "reg" THEN s
  ELSE IF s.leaves = {} /\ s.half = <<>> THEN [s EXCEPT !.leaves = {Unit(c)}]
  ELSE IF s.half = <<>> THEN [s EXCEPT !.half = <<Box(e)>>]
  ELSE LET a == s.half[1]
           old == CHOOSE y \in s.leaves : Halves(c, a, Box(e), y)
       IN [leaves |-> (s.leaves \ {old}) \cup {a, Box(e)}, half |-> <<>>]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- AInit, TJudge <- AJudge, TAfter <- AAfter
=============================================================================
