----------------------------- MODULE Curvature -----------------------------
(***************************************************************************)
(* The difference formulae of the information matrix, in exact arithmetic, *)
(* for every two-parameter log likelihood                                  *)
(*   F(x, y) = F0 - (a x^2 + 2 b x y + c y^2)/2 - (g x^4 + k y^4)/12       *)
(* (doubled and multiplied by 6 to stay in the integers).  Second          *)
(* differences recover a, b, c for quadratics with any step, and one       *)
(* extrapolation of two steps with squared ratio R recovers them for       *)
(* quartics.                                                               *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS M, H, Qs
VARIABLES a, b, c, g, k, f0
vars == <<a, b, c, g, k, f0>>
F(x, y) == 12 * f0 - 6 * (a * x * x + 2 * b * x * y + c * y * y) - g * x * x * x * x - k * y * y * y * y
Init == a \in 1..M /\ c \in 1..M /\ b \in (-M)..M /\ g \in 0..Qs /\ k \in 0..Qs /\ f0 \in {-3, 0, 2}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
D2(x, y) == F(x, y) + F(-x, -y) - 2 * F(0, 0)             \* 12 times the second difference
Steps == 1..H
Diag == g = 0 => \A s \in Steps : -D2(s, 0) = 12 * a * s * s
Mixed == g = 0 /\ k = 0 => \A s, u \in Steps : -(D2(s, u) - D2(s, 0) - D2(0, u)) = 24 * b * s * u
\* Richardson: steps s and 2 s:  (4 D(s)/s^2 - D(2s)/(4 s^2)) / 3  has no quartic term
Extrap(s, Dd(_)) == 16 * Dd(s) - Dd(2 * s)                \* 12 s^2 times the estimate
DiagX(s) == D2(s, 0)
Rich == \A s \in Steps : -Extrap(s, DiagX) = 144 * a * s * s
DXY(s) == D2(s, s)
RichMixed == \A s \in Steps : -Extrap(s, DXY) = 144 * (a + 2 * b + c) * s * s
=============================================================================
