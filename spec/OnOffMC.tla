------------------------------ MODULE OnOffMC ------------------------------
(***************************************************************************)
(* The algorithms of the on/off inference against their definitions: the   *)
(* recursion for the signal count probabilities, started at the mode, and  *)
(* the truncated series that works down and up from a largest term.        *)
(***************************************************************************)
EXTENDS OnOff, TLC, FiniteSets
CONSTANTS MaxN, MaxP, Cuts, Stts
CutsQ == {<<0, 1>>, <<1, 10>>, <<1, 3>>}
CutsT == CutsQ \cup {<<1, 2>>, <<1, 50>>}
SttsQ == {<<1, 2>>, <<1, 1>>, <<3, 1>>, <<8, 1>>}
SttsT == SttsQ \cup {<<1, 3>>, <<3, 2>>, <<2, 1>>, <<5, 1>>}
VARIABLES d, x, cut, km, dn, up, ph
vars == <<d, x, cut, km, dn, up, ph>>
Tk(k) == T(d, x[1], x[2], k)
Largest == {k \in 0..d.non : \A j \in 0..d.non : Tk(j) <= Tk(k)}
Low(k) == cut[1] * Tk(km)                      \* compare  c2*T_k  with  c1*T_max
Init == /\ d \in [non : 0..MaxN, noff : 0..MaxN, p : 1..MaxP, q : 1..MaxP]
        /\ x \in Stts /\ cut \in Cuts /\ km \in 0..MaxN /\ km <= d.non /\ km \in Largest
        /\ dn = km /\ up = km /\ ph = "down"
Down == /\ ph = "down" /\ ph' = (IF dn - 1 >= 0 /\ cut[2] * Tk(dn - 1) > Low(0) THEN "down" ELSE "up")
        /\ dn' = (IF dn = 0 THEN 0 ELSE dn - 1) /\ UNCHANGED <<d, x, cut, km, up>>
Up == /\ ph = "up" /\ ph' = (IF up + 1 <= d.non /\ cut[2] * Tk(up + 1) > Low(0) THEN "up" ELSE "done")
      /\ up' = (IF up = d.non THEN up ELSE up + 1) /\ UNCHANGED <<d, x, cut, km, dn>>
Next == Down \/ Up
Spec == Init /\ [][Next]_vars
\* one step of the recursion relates neighbouring weights
Recursion == \A i \in 0..(d.non - 1) : W(d, i) * (d.non - i) * (d.p + d.q) = W(d, i + 1) * (d.non + d.noff - i) * d.q
ModeIsMax == \A i \in 0..d.non : W(d, i) <= W(d, Mode(d))
Positive == \A i \in 0..d.non : W(d, i) > 0
\* the series is unimodal and truncation drops only terms not above the cutoff
Used == dn..up
Truncation == ph = "done" => /\ \A k \in (0..d.non) \ Used : cut[2] * Tk(k) <= Low(0)
                             /\ Cardinality(Used) <= d.non + 1
Exact == ph = "done" /\ cut[1] = 0 => Used = 0..d.non
TermRatio == \A k \in 1..d.non : Tk(k) * x[2] * k * (d.non + d.noff - k + 1) = Tk(k - 1) * x[1] * (d.non - k + 1)
=============================================================================
