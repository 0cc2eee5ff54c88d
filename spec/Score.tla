------------------------------- MODULE Score -------------------------------
(***************************************************************************)
(* The statistic of an inference: the sum, over all its predictors, of the *)
(* statistic of their current data at the current parameter values.        *)
(* Parameters and data values are in units of 1/4, locations are sequences *)
(* of integers, a datum is [x, v, z: 1/sigma]; statistics are in units of  *)
(* 1/32 (so minus half of chi-squared is an integer).  The log prior is    *)
(* k0/32 - 3/4 of the first parameter.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Feature(k, x) == CASE k = 1 -> 1
                   [] k = 2 -> x[1]
                   [] k = 3 -> IF Len(x) = 1 THEN x[1] * x[1] ELSE x[2]
RECURSIVE PredAt(_, _, _)
PredAt(q, x, k) == IF k > Len(q) THEN 0 ELSE q[k] * Feature(k, x) + PredAt(q, x, k + 1)
Pr(q, x) == PredAt(q, x, 1)
Res(q, d) == d.v - Pr(q, d.x)
RECURSIVE ChiFrom(_, _, _)
ChiFrom(q, D, k) == IF k > Len(D) THEN 0 ELSE LET r == Res(q, D[k]) * D[k].z IN r * r + ChiFrom(q, D, k + 1)
Chi2(q, D) == 2 * ChiFrom(q, D, 1)             \* of one predictor, in 1/32
LogL(q, D) == -ChiFrom(q, D, 1)
RECURSIVE Sum(_, _, _)
Sum(f(_), n, k) == IF k > n THEN 0 ELSE f(k) + Sum(f, n, k + 1)
LogPrior(q, k0) == k0 - 6 * q[1]
\* Ds: the data of every predictor
StatOf(m, q, Ds, k0) ==
  LET l == Sum(LAMBDA j : LogL(q, Ds[j]), Len(Ds), 1)
  IN CASE m = "chisqr" -> -2 * l
       [] m = "maxlike" -> l
       [] m = "bayes" -> l + LogPrior(q, k0)
=============================================================================
