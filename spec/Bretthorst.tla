----------------------------- MODULE Bretthorst -----------------------------
(***************************************************************************)
(* Marginal statistics of a model linear in M amplitudes (M = 1 or 2).     *)
(* c = [m, aux, data: sequence of [x, y, z]]: location, sample and         *)
(* reciprocal uncertainty.  Basis function k at location x for nonlinear   *)
(* parameters P = <<p, q>> is Basis(c, k, x, P); with aux it also uses the *)
(* result p - q of the set-up function.  Everything is exact: a statistic  *)
(* is its numerator over Det.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Basis(c, k, x, P) == (IF k = 1 THEN 1 + P[1] * x ELSE x + P[2]) + (IF c.aux THEN P[1] - P[2] ELSE 0)
N(c) == Len(c.data)
G(c, k, i, P) == c.data[i].z * Basis(c, k, c.data[i].x, P)       \* standardised
D(c, i) == c.data[i].z * c.data[i].y
Met(c, j, k, P) == SumTo([i \in 1..N(c) |-> G(c, j, i, P) * G(c, k, i, P)], N(c))
Proj(c, k, P) == SumTo([i \in 1..N(c) |-> G(c, k, i, P) * D(c, i)], N(c))
Det(c, P) == IF c.m = 1 THEN Met(c, 1, 1, P) ELSE Met(c, 1, 1, P) * Met(c, 2, 2, P) - Met(c, 1, 2, P) * Met(c, 1, 2, P)
\* Det times the inverse of the metric
Cov(c, j, k, P) == IF c.m = 1 THEN 1 ELSE IF j = k THEN Met(c, 3 - j, 3 - j, P) ELSE -Met(c, 1, 2, P)
Amp(c, k, P) == SumTo([j \in 1..c.m |-> Cov(c, k, j, P) * Proj(c, j, P)], c.m)
Suf(c, P) == SumTo([j \in 1..c.m |-> Amp(c, j, P) * Proj(c, j, P)], c.m)
Dsqr(c) == SumTo([i \in 1..N(c) |-> D(c, i) * D(c, i)], N(c))
Q(c, P) == Dsqr(c) * Det(c, P) - Suf(c, P)
Res(c, i, P) == D(c, i) * Det(c, P) - SumTo([k \in 1..c.m |-> Amp(c, k, P) * G(c, k, i, P)], c.m)
\* The statistics exist if the basis is defined and its functions are independent.
Good(c, P) == P[1] # 9 /\ P[2] # 9 /\ Det(c, P) > 0   \* (the basis raises for 9)

\* State: the parameters the stored statistics belong to (<<>>: none yet).
\* An operation names parameters or uses the stored ones.
Target(last, op, P) == IF P = <<>> \/ op = "covar" THEN last ELSE P
Outcome(c, last, op, P) == IF Target(last, op, P) = <<>> THEN "err"
                           ELSE IF Target(last, op, P) = last \/ Good(c, Target(last, op, P)) THEN "ok" ELSE "err"
After(c, last, op, P) == IF Outcome(c, last, op, P) = "ok" THEN Target(last, op, P) ELSE last
=============================================================================
