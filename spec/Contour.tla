------------------------------ MODULE Contour ------------------------------
(***************************************************************************)
(* Contours of a function known on a rectangular grid.  z[i][j] is the     *)
(* (integer) value at the i-th x and the j-th y; levels are in thousandths *)
(* of a unit.  A contour meets the edge between two neighbouring grid      *)
(* points where the value, changing linearly along the edge, passes the    *)
(* level.  Points are <<x, y>> in ten-thousandths of a grid step, the      *)
(* first grid point being <<0, 0>>.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NX(z) == Len(z)
NY(z) == Len(z[1])
Max(a, b) == IF a > b THEN a ELSE b
Transpose(z) == [j \in 1..NY(z) |-> [i \in 1..NX(z) |-> z[i][j]]]
ZMax(z) == CHOOSE m \in {z[i][j] : i \in 1..NX(z), j \in 1..NY(z)} : \A i \in 1..NX(z), j \in 1..NY(z) : z[i][j] <= m
\* the function relative to its maximum
Rel(z) == [i \in 1..NX(z) |-> [j \in 1..NY(z) |-> z[i][j] - ZMax(z)]]
Passes(a, b, l) == (1000 * a < l /\ l < 1000 * b) \/ (1000 * b < l /\ l < 1000 * a)
\* how far along the edge from a to b, in ten-thousandths (truncated)
Along(a, b, l) == IF a < b THEN ((l - 1000 * a) * 10) \div (b - a) ELSE ((1000 * a - l) * 10) \div (a - b)
XEdges(z, l) == {<<10000 * (i - 1) + Along(z[i][j], z[i + 1][j], l), 10000 * (j - 1)>> :
                   <<i, j>> \in {q \in (1..(NX(z) - 1)) \X (1..NY(z)) : Passes(z[q[1]][q[2]], z[q[1] + 1][q[2]], l)}}
YEdges(z, l) == {<<10000 * (i - 1), 10000 * (j - 1) + Along(z[i][j], z[i][j + 1], l)>> :
                   <<i, j>> \in {q \in (1..NX(z)) \X (1..(NY(z) - 1)) : Passes(z[q[1]][q[2]], z[q[1]][q[2] + 1], l)}}
Crossings(z, l) == XEdges(z, l) \union YEdges(z, l)
Near(p, q, tol) == p[1] - q[1] <= tol /\ q[1] - p[1] <= tol /\ p[2] - q[2] <= tol /\ q[2] - p[2] <= tol
SamePoints(A, B, tol) == (\A p \in A : \E q \in B : Near(p, q, tol)) /\ (\A q \in B : \E p \in A : Near(p, q, tol))
\* Levels, in thousandths below the maximum, of a bivariate normal log-pdf: the region above
\* the level holds the probability p when level = ln(1 - p).  Standard: the probabilities of
\* +-1..6 standard deviations of one normal variable, ln(erfc(k / sqrt 2)).
Standard == <<-1148, -3090, -5915, -9667, -14372, -20044>>
\* p in ten-thousandths
PLevel(p) == CASE p = 1000 -> -105 [] p = 3000 -> -357 [] p = 5000 -> -693 [] p = 6827 -> -1148 [] p = 8000 -> -1609 [] p = 9000 -> -2303
               [] p = 9500 -> -2996 [] p = 9545 -> -3090 [] p = 9900 -> -4605 [] p = 9973 -> -5915 [] p = 9990 -> -6908
=============================================================================
