----------------------------- MODULE PwLinTrace -----------------------------
(* Judges recorded densities and samples against PwLin.  Positions are in   *)
(* thousandths of the unit of the widths from the first point, densities   *)
(* in millionths per unit; samples come with the stream of numbers NumPy's *)
(* generator had ahead: one lookup per sample, then one uniform number     *)
(* (two words) per sample.                                                 *)
EXTENDS PwLin, TLC, TraceData
P == INSTANCE Pps
VARIABLES t, i, st
Abs(x) == IF x < 0 THEN -x ELSE x
Offset(c, k) == Total(c.w, k - 1)
\* Does position x come from the uniform number u (15 bits) in interval k?  The distribution function
\* within it is (2 a f + (b - a) f^2) / (a + b), a and b the values at its ends, f the fraction of the width.
Placed(c, k, u, x) == LET a == Val(c, k)
                          b == Val(c, k + 1)
                          f == (x - 1000 * Offset(c, k)) \div c.w[k]
                          u6 == (u * 15625) \div 512
                      IN /\ f >= -1 /\ f <= 1001
                         /\ Abs(2000 * a * f + (b - a) * f * f - u6 * (a + b)) <= 3100 * (a + b)
\* The values at the ends of two intervals meeting at a point agree, so the density is one number there.
Density(c, e) == Abs(e.v - (1000000 * Dens4(c, e.k, e.q)) \div (2 * Norm2(c))) <= 3
PFails(c, e) ==
  IF e.op = "make" THEN IF (e.r = "ok") = e.valid THEN {} ELSE {IF e.valid THEN "C28:valid values rejected" ELSE "C28:unusable arguments accepted"}
  ELSE IF e.r # "ok" THEN {"C28:" \o e.op \o " fails"}
  ELSE CASE e.op = "pdf" -> IF Density(c, e) THEN {} ELSE {"C28:density"}
         [] e.op = "out" -> IF e.v = 0 THEN {} ELSE {"C28:density outside the domain"}
         [] e.op = "sample" ->
              LET x == P!WithRepl(Areas(c), e.js, e.n)
                  m == Len(Intervals(c))
              IN UNION {
                 IF Len(e.xs) = e.n THEN {} ELSE {"C28:number of samples"},
                 IF \A k \in 1..Len(e.xs) : \E y \in 1..m : LET z == Intervals(c)[y] IN
                       e.xs[k] >= 1000 * Offset(c, z) - 1 /\ e.xs[k] <= 1000 * Offset(c, z + 1) + 1 THEN {} ELSE {"C28:sample where the density is zero"},
                 IF x.used = -1 \/ x.used + 2 * e.n > Len(e.js) \/ Len(e.xs) # e.n THEN {} ELSE UNION {
                   IF e.used = x.used + 2 * e.n THEN {} ELSE {"C28:random numbers used"},
                   IF \A k \in 1..e.n : Placed(c, Intervals(c)[x.items[k]], e.js[x.used + 2 * k - 1] \div 32768, e.xs[k]) THEN {} ELSE {"C28:sample is not the one the random numbers select"}}}
PJudge(c, s, e) == UNION {PFails(c, e), IF e.kept THEN {} ELSE {"C28:caller's arrays changed"}}
PInit(c) == 0
PAfter(c, s, e) == s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- PInit, TJudge <- PJudge, TAfter <- PAfter
=============================================================================
