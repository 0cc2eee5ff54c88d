------------------------------ MODULE PwLinMC ------------------------------
(***************************************************************************)
(* The region-building design (scan for runs of points that are not        *)
(* negligible, widen each run by one point on each side, merge nothing)    *)
(* against the definition, for all small sets of values.                   *)
(***************************************************************************)
EXTENDS PwLin, TLC, Json
CONSTANTS MaxV, MaxN, Emit
VARIABLES c, pos, runs, done
vars == <<c, pos, runs, done>>
Cuts == {<<0, 1>>, <<1, 4>>, <<2, 5>>}
Cfgs == {[v |-> v, w |-> [k \in 1..(Len(v) - 1) |-> 1], cn |-> x[1], cd |-> x[2], log |-> l] :
         v \in UNION {[1..n -> 0..MaxV] : n \in 2..MaxN}, x \in Cuts, l \in BOOLEAN}
Init == /\ c \in {d \in Cfgs : Top(d) > 0}
        /\ pos = 1 /\ runs = <<>> /\ done = FALSE
        /\ (Emit => PrintT("@@BEH " \o ToJson(c)))
Scan == /\ ~done /\ pos <= NP(c)
        /\ pos' = pos + 1
        /\ runs' = IF Negl(c, pos) THEN runs
                   ELSE IF runs # <<>> /\ runs[Len(runs)][2] = pos - 1 THEN [runs EXCEPT ![Len(runs)] = <<@[1], pos>>]
                   ELSE Append(runs, <<pos, pos>>)
        /\ UNCHANGED <<c, done>>
Widen == /\ ~done /\ pos > NP(c)
         /\ done' = TRUE
         /\ runs' = [k \in 1..Len(runs) |-> <<IF runs[k][1] > 1 THEN runs[k][1] - 1 ELSE 1, IF runs[k][2] < NP(c) THEN runs[k][2] + 1 ELSE NP(c)>>]
         /\ UNCHANGED <<c, pos>>
Next == Scan \/ Widen
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_, _)
Flat(r, k) == IF k = 0 THEN <<>> ELSE Flat(r, k - 1) \o [m \in 1..(r[k][2] - r[k][1]) |-> r[k][1] + m - 1]
SameIntervals == done => Flat(runs, Len(runs)) = Intervals(c)
\* The density integrates to one: the trapezoid sum of quarter points over all intervals.
Normalised == done => Total([k \in 1..(NP(c) - 1) |-> IF In(c, k) THEN Dens4(c, k, 2) ELSE 0], NP(c) - 1) = 2 * Norm2(c)
Positive == done => Norm2(c) > 0
=============================================================================
