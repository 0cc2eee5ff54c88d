-------------------------------- MODULE Hpd --------------------------------
(***************************************************************************)
(* Highest-density regions of a density tabulated on a regular grid and    *)
(* interpolated linearly between its points.  Y: values, c: level.         *)
(* Contents are kept doubled (no halves) and in units of 1/S.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT S
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
\* twice the part of the cell between a and b above level c
Cell(a, b, c) == LET hi == MaxI(a, b) lo == MinI(a, b) IN
  IF lo > c THEN (a + b) * S
  ELSE IF hi > c THEN ((hi - c) * S * (hi + c)) \div (hi - lo)
  ELSE 0
RECURSIVE Above(_, _, _)
Above(Y, c, k) == IF k <= 1 THEN 0 ELSE Above(Y, c, k - 1) + Cell(Y[k - 1], Y[k], c)
Content(Y, c) == Above(Y, c, Len(Y))
Total(Y) == Content(Y, -1)
\* four times the content over a table of rows: trapezoid rule across the rows
RECURSIVE Rows(_, _, _)
Rows(Z, c, k) == IF k = 0 THEN 0 ELSE Rows(Z, c, k - 1) + (IF k = 1 \/ k = Len(Z) THEN 1 ELSE 2) * Content(Z[k], c)
Content2(Z, c) == Rows(Z, c, Len(Z))
\* cells in which the density passes the level; Gt(y, c): y is above it
Crossings(Y, c, Gt(_, _)) == {j \in 1..Len(Y) - 1 : Gt(Y[j], c) # Gt(Y[j + 1], c)}
RECURSIVE Sorted(_)
Sorted(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE x \in A : \A y \in A : x <= y IN <<m>> \o Sorted(A \ {m})
=============================================================================
