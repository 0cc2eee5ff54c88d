----------------------------- MODULE StepperMC -----------------------------
(***************************************************************************)
(* Several live step generators advanced in any order.  Generator g yields *)
(* point k of its own n(g) points, whatever the others do.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Gens, MaxN, Extra, Emit
VARIABLES n, k, h
Init == n \in [1..Gens -> 2..MaxN] /\ k = [g \in 1..Gens |-> 0] /\ h = <<>>
\* one request to generator g; beyond the last point it only reports the end
Step(g) == /\ k[g] < n[g] + Extra
           /\ k' = [k EXCEPT ![g] = @ + 1]
           /\ h' = Append(h, [g |-> g, y |-> IF k[g] < n[g] THEN k[g] ELSE -1])
           /\ UNCHANGED n
Done == \A g \in 1..Gens : k[g] = n[g] + Extra
Next == (\E g \in 1..Gens : Step(g)) \/ (Done /\ UNCHANGED <<n, k, h>>)
Spec == Init /\ [][Next]_<<n, k, h>>
Of(g) == SelectSeq(h, LAMBDA e : e.g = g)
\* each generator's own history is 0, 1, .., n-1, end, end: independent of the interleaving
Own == \A g \in 1..Gens : \A j \in 1..Len(Of(g)) : Of(g)[j].y = (IF j <= n[g] THEN j - 1 ELSE -1)
Complete == Done => \A g \in 1..Gens : Cardinality({j \in 1..Len(Of(g)) : Of(g)[j].y >= 0}) = n[g]
EmitC == (Emit /\ Done) => PrintT("@@BEH " \o ToJson([n |-> n, s |-> [j \in 1..Len(h) |-> h[j].g]]))
=============================================================================
