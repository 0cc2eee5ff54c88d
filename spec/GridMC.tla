------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* Design model of the self-refining grid: every table of values on every  *)
(* spacing, every way to cut it into pieces, and refinement, which puts    *)
(* extra points into some of the gaps of a piece.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxV, Emit, Deep
VARIABLES Y, X, N, ph
ILt(a, b) == a < b
G == INSTANCE GridSpec WITH Lt <- ILt
RECURSIVE Cuts(_)
Cuts(n) == IF n < 2 THEN {} ELSE {<<n>>} \cup UNION {{<<k>> \o r : r \in Cuts(n - k + 1)} : k \in 2..(n - 1)}
RECURSIVE Sums(_, _)
Sums(f, k) == IF k = 0 THEN 0 ELSE Sums(f, k - 1) + f[k]
Pos(D) == [k \in 1..Len(D) + 1 |-> Sums(D, k - 1)]
Init == /\ ph = 0 /\ N = <<>> /\ X = <<>>
        /\ \E n \in 2..MaxN : Y \in [1..n -> 0..MaxV]
Lay == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED Y
       /\ \E D \in (IF Deep THEN [1..Len(Y) - 1 -> 1..2] ELSE {[k \in 1..Len(Y) - 1 |-> 2], [k \in 1..Len(Y) - 1 |-> 1 + (k % 2)]}) : X' = Pos(D)
       /\ N' \in Cuts(Len(Y))
\* a point in the middle of gap k, with any value between the ends (its neighbours) or above
Refine == /\ ph = 1 /\ ph' = 2
          /\ \E k \in 1..Len(Y) - 1, v \in 0..MaxV :
               /\ X[k + 1] - X[k] = 2
               /\ Y' = SubSeq(Y, 1, k) \o <<v>> \o SubSeq(Y, k + 1, Len(Y))
               /\ X' = SubSeq(X, 1, k) \o <<X[k] + 1>> \o SubSeq(X, k + 1, Len(X))
               /\ N' = [N EXCEPT ![G!Where(N, k - 1).j] = @ + 1]
Stop == ph = 1 /\ ph' = 3 /\ UNCHANGED <<Y, X, N>> /\ (Emit => PrintT("@@BEH " \o ToJson([y |-> Y, n |-> N])))
Next == Lay \/ Refine \/ Stop
Spec == Init /\ [][Next]_<<Y, X, N, ph>>
RECURSIVE PieceTrap(_)
PieceTrap(j) == IF j = 0 THEN 0
  ELSE PieceTrap(j - 1) + G!Trap2(G!Piece(X, N, j), G!Piece(Y, N, j), N[j])
\* cutting the grid into pieces loses and duplicates nothing
Adds == ph > 0 => PieceTrap(Len(N)) = G!Trap2(X, Y, Len(Y))
Enumerates == ph > 0 =>
  /\ G!Size(N) = Len(Y)
  /\ \A m \in 0..Len(Y) - 1 : LET q == G!Where(N, m) IN G!Piece(X, N, q.j)[q.x + 1] = X[m + 1] /\ G!Piece(Y, N, q.j)[q.x + 1] = Y[m + 1]
Increasing == ph > 0 => \A k \in 1..Len(X) - 1 : X[k] < X[k + 1]
\* a table that rises somewhere to its maximum, or falls from it at the left end, has a recorded peak there
MaxRecorded == Len(Y) >= 3 =>
  LET m == CHOOSE v \in {Y[k] : k \in 1..Len(Y)} : \A k \in 1..Len(Y) : Y[k] <= v
  IN (\E k \in 2..Len(Y) : Y[k] = m /\ Y[k - 1] < m) \/ (Y[1] = m /\ Y[2] < m) => \E k \in G!Peaks(Y) : Y[k] = m
\* never two neighbouring peaks
Apart == Len(Y) >= 3 => \A k \in G!Peaks(Y) : k + 1 \notin G!Peaks(Y)
=============================================================================
