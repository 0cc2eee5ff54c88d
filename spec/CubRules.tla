------------------------------ MODULE CubRules ------------------------------
(***************************************************************************)
(* Two-dimensional monomial rules in exact arithmetic.  The nodes and      *)
(* weights are algebraic numbers; every identity between them holds in     *)
(* the field of P elements (P a prime for which the square roots exist),   *)
(* where TLC can calculate.  A cubature visits the nodes of the rule,      *)
(* mapped to each piece of a partition of the region, one by one.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, Coords, Scales, Rules, Emit
F(x) == x % P
Inv == [a \in {2, 3, 4, 5, 6, 7, 8, 9, 16, 36, 45, 96, 128, 287, 405, 2304} |-> CHOOSE x \in 1..(P - 1) : (x * a) % P = 1]
Q(a, b) == F(F(a) * Inv[b])
Root(a) == CHOOSE x \in 0..(P - 1) : (x * x) % P = F(a)
R2 == Root(2)
R3 == Root(3)
R5 == Root(5)
R15 == F(R3 * R5)
R583 == Root(583)
FullX(a, w) == <<<<a, 0, w>>, <<F(-a), 0, w>>, <<0, a, w>>, <<0, F(-a), w>>>>
FullD(a, w) == <<<<a, a, w>>, <<F(-a), a, w>>, <<a, F(-a), w>>, <<F(-a), F(-a), w>>>>
\* six points at radius r, the first at angle 0 or at half a step
Hex(r, w, turned) ==
  LET c == Q(r, 2)
      s == F(c * R3)
  IN IF turned THEN <<<<s, c, w>>, <<0, r, w>>, <<F(-s), c, w>>, <<F(-s), F(-c), w>>, <<0, F(-r), w>>, <<s, F(-c), w>>>>
     ELSE <<<<r, 0, w>>, <<c, s, w>>, <<F(-c), s, w>>, <<F(-r), 0, w>>, <<F(-c), F(-s), w>>, <<c, F(-s), w>>>>
\* weights of c2_7_12 for the nodes on the diagonals: 307/810 +- 2769 R583/472230 (472230 = 583 * 810)
D583 == CHOOSE x \in 1..(P - 1) : (x * F(583)) % P = 1
W7(sgn) == F(F(Q(307, 405) * Inv[2]) + sgn * F(F(F(2769 * R583) * D583) * F(Inv[405] * Inv[2])))
W9(sgn) == F(Q(121, 2304) + sgn * F(F(151 * R15) * F(Inv[5] * Inv[2304])))
Nodes9(turned) == Hex(2, Inv[128], FALSE) \o Hex(Root(Q(24 - 4 * R15, 7)), W9(1), turned)
                  \o Hex(Root(Q(24 + 4 * R15, 7)), W9(-1), turned) \o <<<<0, 0, Q(31, 96)>>>>
Nodes ==
  [c2_1_4 |-> FullD(1, 1),
   c2_3_4 |-> FullX(Root(Q(2, 3)), 1),
   c2_7_12 |-> FullX(Root(Q(6, 7)), Q(98, 405)) \o FullD(Root(Q(114 - 3 * R583, 287)), W7(1)) \o FullD(Root(Q(114 + 3 * R583, 287)), W7(-1)),
   g_3_4a |-> FullX(1, Inv[4]),
   g_3_4b |-> FullD(F(R2 * Inv[2]), Inv[4]),
   g_5_9 |-> FullD(1, Inv[16]) \o FullX(R2, Inv[16]) \o <<<<0, 0, Inv[2]>>>>,
   g_7_12 |-> FullX(R3, Inv[36]) \o FullD(Root(Q(9 - 3 * R5, 8)), F(Inv[9] + Q(2 * R5, 45))) \o FullD(Root(Q(9 + 3 * R5, 8)), F(Inv[9] - Q(2 * R5, 45))),
   g_9_19 |-> Nodes9(TRUE)]
Degree == [c2_1_4 |-> 1, c2_3_4 |-> 3, c2_7_12 |-> 7, g_3_4a |-> 3, g_3_4b |-> 3, g_5_9 |-> 5, g_7_12 |-> 7, g_9_19 |-> 9]
Square(r) == r \in {"c2_1_4", "c2_3_4", "c2_7_12"}
RECURSIVE FP(_, _)
FP(a, n) == IF n = 0 THEN 1 ELSE F(a * FP(a, n - 1))
Mons(d) == {x \in (0..d) \X (0..d) : x[1] + x[2] <= d}
DivBy(a, n) == CHOOSE x \in 0..(P - 1) : (x * n) % P = F(a)
\* exact integrals: on a rectangle, or under a normal density
RM(a, b, m) == DivBy(FP(F(b), m + 1) - FP(F(a), m + 1), m + 1)
RECURSIVE Nm(_)
Nm(m) == IF m = 0 THEN 1 ELSE IF m = 1 THEN 0 ELSE F((m - 1) * Nm(m - 2))
RECURSIVE Bn(_, _)
Bn(n, k) == IF k = 0 \/ k = n THEN 1 ELSE F(Bn(n - 1, k - 1) + Bn(n - 1, k))
RECURSIVE NS(_, _, _, _)
NS(l, s, m, k) == IF k > m THEN 0 ELSE F(F(F(Bn(m, k) * FP(F(l), m - k)) * F(FP(F(s), k) * Nm(k))) + NS(l, s, m, k + 1))
Exact(r, g, m) == IF Square(r) THEN F(RM(g[1], g[2], m[1]) * RM(g[3], g[4], m[2])) ELSE F(NS(g[1], g[2], m[1], 0) * NS(g[3], g[4], m[2], 0))
\* a node on a region: rectangle (xl, xu, yl, yu), or normal (lx, sx, ly, sy)
Map(r, g, nd) ==
  IF Square(r) THEN LET hx == Q(g[2] - g[1], 2)
                        hy == Q(g[4] - g[3], 2)
                    IN <<F(Q(g[1] + g[2], 2) + F(hx * nd[1])), F(Q(g[3] + g[4], 2) + F(hy * nd[2])), F(nd[3] * F(hx * hy))>>
  ELSE <<F(g[1] + F(F(R2 * g[2]) * nd[1])), F(g[3] + F(F(R2 * g[4]) * nd[2])), nd[3]>>
VARIABLES rule, reg, parts, k, acc, pts
vars == <<rule, reg, parts, k, acc, pts>>
Regs(r) == IF Square(r) THEN {g \in Coords \X Coords \X Coords \X Coords : g[1] < g[2] /\ g[3] < g[4]}
           ELSE Coords \X Scales \X Coords \X Scales
Splits(r, g) == {<<g>>} \cup (IF Square(r)
   THEN {<<<<g[1], c, g[3], g[4]>>, <<c, g[2], g[3], g[4]>>>> : c \in {c \in Coords : g[1] < c /\ c < g[2]}}
        \cup {<<<<g[1], g[2], g[3], c>>, <<g[1], g[2], c, g[4]>>>> : c \in {c \in Coords : g[3] < c /\ c < g[4]}} ELSE {})
Init == /\ rule \in Rules /\ reg \in Regs(rule) /\ parts \in Splits(rule, reg)
        /\ k = 0 /\ acc = [m \in Mons(Degree[rule] + 1) |-> 0] /\ pts = {}
Eval == /\ parts # <<>>
        /\ LET nd == Map(rule, parts[1], Nodes[rule][k + 1])
           IN /\ acc' = [m \in DOMAIN acc |-> F(acc[m] + F(nd[3] * F(FP(nd[1], m[1]) * FP(nd[2], m[2]))))]
              /\ pts' = pts \cup {<<nd[1], nd[2], parts[1]>>}
        /\ IF k + 1 = Len(Nodes[rule]) THEN k' = 0 /\ parts' = Tail(parts) ELSE k' = k + 1 /\ parts' = parts
        /\ UNCHANGED <<rule, reg>>
Stay == UNCHANGED vars
Spec == Init /\ [][Eval]_vars
Done == parts = <<>>
EmitC == (Emit /\ pts = {}) => PrintT("@@BEH " \o ToJson([rule |-> rule, reg |-> reg, parts |-> parts]))
ExactInv == Done => \A m \in DOMAIN acc : m[1] + m[2] <= Degree[rule] => acc[m] = Exact(rule, reg, m)
\* the degree is not understated (a single application of the rule)
NotBetter == (Done /\ Cardinality(pts) = Len(Nodes[rule])) =>
             \E m \in DOMAIN acc : m[1] + m[2] = Degree[rule] + 1 /\ acc[m] # Exact(rule, reg, m)
Count == Done => Cardinality(pts) \in {Len(Nodes[rule]), 2 * Len(Nodes[rule])}
\* without turning two of the three hexagons the rule is not of degree 9
RECURSIVE SumN(_, _)
SumN(q, m) == IF q = <<>> THEN 0 ELSE F(F(q[1][3] * F(FP(q[1][1], m[1]) * FP(q[1][2], m[2]))) + SumN(Tail(q), m))
Std(m) == F(F(Nm(m[1]) * Nm(m[2])) * FP(Inv[2], (m[1] + m[2]) \div 2))
ASSUME \A m \in Mons(9) : SumN(Nodes9(TRUE), m) = IF m[1] % 2 = 0 /\ m[2] % 2 = 0 THEN Std(m) ELSE 0
ASSUME SumN(Nodes9(FALSE), <<6, 0>>) # Std(<<6, 0>>)
=============================================================================
