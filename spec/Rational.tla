------------------------------ MODULE Rational ------------------------------
EXTENDS Integers, Sequences
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == LET g == GCD(AbsI(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
QLt(x, y) == x[1] * y[2] < y[1] * x[2]
QLe(x, y) == x[1] * y[2] <= y[1] * x[2]
QAdd(x, y) == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
QSub(x, y) == Q(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
QMulN(x, n) == Q(x[1] * n, x[2])
QDivN(x, n) == Q(x[1], x[2] * n)
\* floor and ceiling of a quotient of positive rationals
QFloor(x, y) == (x[1] * y[2]) \div (x[2] * y[1])
QCeil(x, y) == -((-(x[1] * y[2])) \div (x[2] * y[1]))
QMax(x, y) == IF QLt(x, y) THEN y ELSE x
QMin(x, y) == IF QLt(x, y) THEN x ELSE y
=============================================================================
