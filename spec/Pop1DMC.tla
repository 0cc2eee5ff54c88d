------------------------------ MODULE Pop1DMC ------------------------------
(***************************************************************************)
(* Members arrive one at a time and are put in their place; the curve is   *)
(* then drawn point by point.                                              *)
(***************************************************************************)
EXTENDS Pop1D, TLC, Json
CONSTANTS MaxN, MaxV, MaxW, Emit
VARIABLES inp, pop, phase, xs, ys, rg
vars == <<inp, pop, phase, xs, ys, rg>>
V(p) == [k \in 1..Len(p) |-> p[k][1]]
W(p) == [k \in 1..Len(p) |-> p[k][2]]
Members == (0..MaxV) \X (0..MaxW)
Init == inp = <<>> /\ pop = <<>> /\ phase = "build" /\ xs = <<>> /\ ys = <<>> /\ rg = <<0, 0>>
Arrive == /\ phase = "build" /\ Len(inp) < MaxN
          /\ \E m \in Members :
               LET k == Cardinality({j \in 1..Len(pop) : pop[j][1] <= m[1]}) IN
               /\ inp' = Append(inp, m)
               /\ pop' = SubSeq(pop, 1, k) \o <<m>> \o SubSeq(pop, k + 1, Len(pop))
          /\ UNCHANGED <<phase, xs, ys, rg>>
Start == /\ phase = "build" /\ pop # <<>>
         /\ \E s \in -1..MaxV, e \in 0..(MaxV + 1) :
              /\ rg' = <<s, e>>
              /\ IF Spans(V(pop), s, e) THEN phase' = "draw" /\ xs' = <<s>> /\ ys' = <<Total(W(pop))>>
                                        ELSE phase' = "refused" /\ UNCHANGED <<xs, ys>>
         /\ UNCHANGED <<inp, pop>>
\* a pair of points at the next member: down to the weight from it on
Jump == /\ phase = "draw" /\ Len(xs) < 2 * Len(pop) + 1
        /\ LET k == (Len(xs) + 1) \div 2 IN
             /\ xs' = xs \o <<pop[k][1], pop[k][1]>>
             /\ ys' = ys \o <<ys[Len(ys)], Total(SubSeq(W(pop), k, Len(pop)))>>
        /\ UNCHANGED <<inp, pop, phase, rg>>
Close == /\ phase = "draw" /\ Len(xs) = 2 * Len(pop) + 1
         /\ xs' = Append(xs, rg[2]) /\ ys' = Append(ys, 0) /\ phase' = "done" /\ UNCHANGED <<inp, pop, rg>>
Next == Arrive \/ Start \/ Jump \/ Close
Spec == Init /\ [][Next]_vars
InOrder == Sorted(V(pop)) /\ SameMembers(inp, pop)
Complement == \A k \in 1..Len(pop) : Cdf(W(pop))[k] + Hazard(W(pop))[k] = Total(W(pop)) + W(pop)[k]
AtOrAbove == \A k \in 1..Len(pop) : Hazard(W(pop))[k] = Total(SubSeq(W(pop), k, Len(pop)))
Descends == \A k \in 1..(Len(ys) - 1) : ys[k] >= ys[k + 1]
Ascends == Sorted(xs)
Curve == phase = "done" => xs = HazX(V(pop), rg[1], rg[2]) /\ ys = HazY(W(pop), Total(W(pop)))
EmitP == (Emit /\ phase \in {"draw", "refused"} /\ Len(xs) <= 1) => PrintT("@@BEH " \o ToJson([mem |-> inp, rg |-> rg]))
=============================================================================
