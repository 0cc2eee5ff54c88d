----------------------------- MODULE LinScore -----------------------------
(***************************************************************************)
(* Fit statistics of a polynomial model in exact integer arithmetic.       *)
(* Parameters and data values are in units of 1/32; a datum is             *)
(* [x: integer, y: units of 1/32, z: 2/sigma]; the statistic is in units   *)
(* of 1/8192.  c = [data: one sequence of data per predictor,              *)
(* method: "chisqr"|"maxlike"|"bayes", k0]; the log of the Bayesian prior  *)
(* is k0 - a/8 for the first parameter a.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Poly(_, _, _, _)
Poly(q, x, k, xp) == IF k > Len(q) THEN 0 ELSE q[k] * xp + Poly(q, x, k + 1, xp * x)
Resid(q, d) == (d.y - Poly(q, d.x, 1, 1)) * d.z
RECURSIVE SumSq(_, _, _)
SumSq(q, ds, k) == IF k > Len(ds) THEN 0 ELSE LET r == Resid(q, ds[k]) IN r * r + SumSq(q, ds, k + 1)
RECURSIVE ChiAll(_, _, _)
ChiAll(q, data, k) == IF k > Len(data) THEN 0 ELSE SumSq(q, data[k], 1) + ChiAll(q, data, k + 1)
Chi(c, q) == ChiAll(q, c.data, 1)
Score(c, q) == CASE c.method = "chisqr" -> 2 * Chi(c, q)
                 [] c.method = "maxlike" -> -Chi(c, q)
                 [] c.method = "bayes" -> -Chi(c, q) - 32 * q[1] + 8192 * c.k0
Maximised(c) == c.method # "chisqr"
\* a is at least as good as b
Better(c, a, b) == IF Maximised(c) THEN a >= b ELSE a <= b
=============================================================================
