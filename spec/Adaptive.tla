------------------------------ MODULE Adaptive ------------------------------
(***************************************************************************)
(* Global adaptive integration by repeated bisection.  The region is the   *)
(* box of Side^Dim unit cells; the error estimate of every box is an       *)
(* adversary's choice.  One call of the rule per box; the box with the     *)
(* largest error is halved next, until the total error is small enough or  *)
(* the budget does not allow two more calls.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dim, Side, MaxErr, Budgets
VARIABLES leaves, calls, budget, tol, res
vars == <<leaves, calls, budget, tol, res>>
\* a leaf: lower corner, size in each direction, error
Box(lo, sz, er) == [lo |-> lo, sz |-> sz, er |-> er]
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Err == Sum(leaves, [b \in leaves |-> b.er])
Zero == [d \in 1..Dim |-> 0]
Full == [d \in 1..Dim |-> Side]
Init == /\ budget \in Budgets /\ tol \in 0..MaxErr /\ calls = 1 /\ res = "run"
        /\ \E e \in 0..MaxErr : leaves = {Box(Zero, Full, e)}
Divide == /\ res = "run" /\ Err > tol /\ calls + 2 <= budget
          /\ \E b \in {b \in leaves : \A c \in leaves : c.er <= b.er} :
               \E d \in {d \in 1..Dim : b.sz[d] > 1} :
                 LET h == [b.sz EXCEPT ![d] = @ \div 2]
                 IN \E e1 \in 0..b.er : \E e2 \in 0..b.er :
                     leaves' = (leaves \ {b}) \cup {Box(b.lo, h, e1), Box([b.lo EXCEPT ![d] = @ + h[d]], h, e2)}
          /\ calls' = calls + 2
          /\ UNCHANGED <<budget, tol, res>>
Stop == /\ res = "run"
        /\ \/ Err <= tol /\ res' = "ok"
           \/ Err > tol /\ calls + 2 > budget /\ res' = "fail"
        /\ UNCHANGED <<leaves, calls, budget, tol>>
Next == Divide \/ Stop
Spec == Init /\ [][Next]_vars
Cells(b) == {c \in [1..Dim -> 0..(Side - 1)] : \A d \in 1..Dim : b.lo[d] <= c[d] /\ c[d] < b.lo[d] + b.sz[d]}
\* the boxes always tile the region
Tiling == /\ \A c \in [1..Dim -> 0..(Side - 1)] : Cardinality({b \in leaves : c \in Cells(b)}) = 1
Budget == calls <= budget /\ calls = 2 * Cardinality(leaves) - 1
Honest == (res = "ok" => Err <= tol) /\ (res = "fail" => Err > tol /\ calls + 2 > budget)
=============================================================================
