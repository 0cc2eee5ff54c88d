------------------------------- MODULE PwLin -------------------------------
(***************************************************************************)
(* A density that is linear between grid points.  c = [v: values at the    *)
(* points, w: widths of the intervals, cn/cd: the cut as a fraction, log:  *)
(* whether the values were given as logarithms].  A value at or below the  *)
(* cut times the largest is negligible; an interval counts unless both its *)
(* ends are negligible.  Given as logarithms, negligible values are zero.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NP(c) == Len(c.v)
Top(c) == CHOOSE m \in {c.v[k] : k \in 1..NP(c)} : \A k \in 1..NP(c) : c.v[k] <= m
Negl(c, k) == c.v[k] * c.cd <= c.cn * Top(c)
Val(c, k) == IF c.log /\ Negl(c, k) THEN 0 ELSE c.v[k]
In(c, k) == ~(Negl(c, k) /\ Negl(c, k + 1))                    \* interval k: points k, k+1
\* the intervals that count, in order, and twice their areas
RECURSIVE Upto(_, _)
Upto(c, k) == IF k = 0 THEN <<>> ELSE IF In(c, k) THEN Append(Upto(c, k - 1), k) ELSE Upto(c, k - 1)
Intervals(c) == Upto(c, NP(c) - 1)
Area2(c, k) == (Val(c, k) + Val(c, k + 1)) * c.w[k]
Areas(c) == [m \in 1..Len(Intervals(c)) |-> Area2(c, Intervals(c)[m])]
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
Norm2(c) == Total(Areas(c), Len(Areas(c)))
\* Four times the unnormalised density q quarters into interval k (0-based point k-1, q in 0..3;
\* q = 0 also concerns the interval ending there).
Dens4(c, k, q) == IF q = 0 THEN IF (k >= 2 /\ In(c, k - 1)) \/ (k <= NP(c) - 1 /\ In(c, k)) THEN 4 * Val(c, k) ELSE 0
                  ELSE IF In(c, k) THEN (4 - q) * Val(c, k) + q * Val(c, k + 1) ELSE 0
=============================================================================
