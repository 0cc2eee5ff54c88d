------------------------------- MODULE HpdMC -------------------------------
(* All small densities: content, regions and critical levels.  Values are  *)
(* even, so that odd levels lie strictly between them.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxV, Emit
VARIABLES Y, c
H == INSTANCE Hpd WITH S <- 840
Gt(y, l) == y > l
Levels == 0..2 * MaxV
Init == c = -1 /\ \E n \in 2..MaxN : Y \in {[k \in 1..n |-> 2 * f[k]] : f \in [1..n -> 0..MaxV]}
Next == c = -1 /\ c' \in Levels /\ UNCHANGED Y /\ (Emit => PrintT("@@BEH " \o ToJson([y |-> Y, c |-> c'])))
Spec == Init /\ [][Next]_<<Y, c>>
Top == CHOOSE m \in {Y[k] : k \in 1..Len(Y)} : \A k \in 1..Len(Y) : Y[k] <= m
Low == CHOOSE m \in {Y[k] : k \in 1..Len(Y)} : \A k \in 1..Len(Y) : Y[k] >= m
RECURSIVE Tr(_)
Tr(k) == IF k <= 1 THEN 0 ELSE Tr(k - 1) + 840 * (Y[k] + Y[k - 1])
\* nothing is above the top, everything (the trapezoid rule) above any level below the lowest value
Ends == H!Content(Y, Top) = 0 /\ H!Total(Y) = Tr(Len(Y)) /\ (c >= 0 /\ c < Low => H!Content(Y, c) = Tr(Len(Y)))
\* a higher level leaves a smaller region with less in it
Monotone == c >= 0 => \A d \in Levels : d > c => H!Content(Y, d) <= H!Content(Y, c)
Pos(j, l) == IF Y[j] = Y[j + 1] THEN 840 * j ELSE 840 * j + (840 * (l - Y[j])) \div (Y[j + 1] - Y[j])
Inside(j, l) == Y[j] > l
Nested == c >= 0 => \A d \in Levels : d > c => \A j \in 1..Len(Y) : Inside(j, d) => Inside(j, c)
\* crossings alternate and separate inside from outside; between two of them the density stays on one side
Alternate == c >= 0 =>
  LET K == H!Crossings(Y, c, Gt) IN
  \A j, k \in K : j < k /\ ~(\E m \in K : j < m /\ m < k) =>
     /\ Inside(j + 1, c) # Inside(k + 1, c)
     /\ \A m \in j + 1..k : Inside(m, c) = Inside(j + 1, c)
     /\ Pos(j, c) <= Pos(k, c)
Parity == c >= 0 => (Cardinality(H!Crossings(Y, c, Gt)) % 2 = 0) = (Inside(1, c) = Inside(Len(Y), c))
\* the region of a larger content has the lower level: the content function is a monotone bijection away from plateaus
Strict == c >= 0 => \A d \in Levels : d > c /\ H!Content(Y, d) = H!Content(Y, c) => (d <= Low \/ c >= Top) \/ c < Low
=============================================================================
