------------------------------ MODULE GridSpec ------------------------------
(***************************************************************************)
(* A tabulated function on a (self-refining) one-dimensional grid: its     *)
(* enumeration over the pieces that make up the grid, its local maxima and *)
(* its trapezoid rule.  Lt is the order of the values.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Lt(_, _)
\* twice the trapezoid rule over positions X and values V
RECURSIVE Trap2(_, _, _)
Trap2(X, V, k) == IF k <= 1 THEN 0 ELSE Trap2(X, V, k - 1) + (X[k] - X[k - 1]) * (V[k] + V[k - 1])
\* local maxima (1-based): a rise followed by a fall or a flat step; at the ends, a fall or a rise
Inner(Y, k) == k > 1 /\ k < Len(Y) /\ Lt(Y[k - 1], Y[k]) /\ ~Lt(Y[k], Y[k + 1])
LeftHalf(Y) == Len(Y) >= 3 /\ Lt(Y[2], Y[1])
RightHalf(Y) == Len(Y) >= 3 /\ Lt(Y[Len(Y) - 1], Y[Len(Y)])
Peaks(Y) == {k \in 1..Len(Y) : Inner(Y, k)} \cup (IF LeftHalf(Y) THEN {1} ELSE {}) \cup (IF RightHalf(Y) THEN {Len(Y)} ELSE {})
\* pieces: lengths of consecutive pieces sharing their end points; point number m (0-based) of the
\* whole is point q.x of piece q.j
RECURSIVE Upto(_, _)
Upto(N, j) == IF j = 0 THEN 0 ELSE Upto(N, j - 1) + N[j] - 1
Size(N) == Upto(N, Len(N)) + 1
Where(N, m) == LET j == CHOOSE j \in 1..Len(N) : Upto(N, j - 1) <= m /\ (m < Upto(N, j) \/ (j = Len(N) /\ m = Upto(N, j)))
               IN [j |-> j, x |-> m - Upto(N, j - 1)]
Piece(Y, N, j) == SubSeq(Y, Upto(N, j - 1) + 1, Upto(N, j) + 1)
=============================================================================
