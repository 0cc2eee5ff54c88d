------------------------------- MODULE Pop1D -------------------------------
(***************************************************************************)
(* A population whose members have a value, a weight and possibly an error *)
(* (all in integer units).  The members are kept in the order of their     *)
(* values, each with its own weight and error.  cdf at a member is the     *)
(* weight of the members up to it, hazard the weight from it on.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(w, k) == IF k = 0 THEN 0 ELSE w[k] + SumTo(w, k - 1)
Total(w) == SumTo(w, Len(w))
Cdf(w) == [k \in 1..Len(w) |-> SumTo(w, k)]
Hazard(w) == [k \in 1..Len(w) |-> Total(w) - SumTo(w, k - 1)]
Sorted(v) == \A k \in 1..(Len(v) - 1) : v[k] <= v[k + 1]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameMembers(s, u) == Len(s) = Len(u) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(u, s[k])
\* the points of the descending step curve from start to end; top is the height it starts at
HazX(v, start, end) == [k \in 1..(2 * Len(v) + 2) |-> IF k = 1 THEN start ELSE IF k = 2 * Len(v) + 2 THEN end ELSE v[k \div 2]]
HazY(w, top) == [k \in 1..(2 * Len(w) + 2) |-> IF k <= 2 THEN top ELSE IF k = 2 * Len(w) + 2 THEN 0
                                               ELSE IF k % 2 = 1 THEN Hazard(w)[k \div 2] ELSE Hazard(w)[(k \div 2) - 1]]
\* twice the places of the error bars
ErrX2(v, end) == [k \in 1..Len(v) |-> v[k] + IF k < Len(v) THEN v[k + 1] ELSE end]
Spans(v, start, end) == start <= v[1] /\ end >= v[Len(v)]
=============================================================================
