----------------------------- MODULE StepSearch -----------------------------
(***************************************************************************)
(* The search for the steps that change a log likelihood by a given        *)
(* amount.  The likelihood is an adversary: an evaluation returns a value  *)
(* above the maximum, equal to it (flat), on target or off target, or      *)
(* raises.  coord is the coordinate displaced from the mode when the       *)
(* function is called; mode = "moved" if the caller's array is displaced   *)
(* (only possible when the search works in the caller's array, Inplace).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dim, MaxIter, MaxGrow, Inplace, Emit
VARIABLES i, ph, nit, grow, coord, mode, done, res, h
vars == <<i, ph, nit, grow, coord, mode, done, res, h>>
Vals == {"above", "flat", "hit", "miss", "raise"}
Init == i = 1 /\ ph = "guess" /\ nit = 0 /\ grow = 0 /\ coord = {} /\ mode = "kept" /\ done = {} /\ res = "run" /\ h = <<>>
End(r) == res' = r /\ UNCHANGED <<i, ph, nit, grow, done>>
Call(v) == coord' = {i} /\ mode' = (IF Inplace THEN "moved" ELSE "kept") /\ h' = Append(h, v)
Guess == /\ res = "run" /\ ph = "guess"
         /\ \E v \in Vals : Call(v) /\
              CASE v = "raise" -> End("raised")
                [] v = "above" -> End("notmax")
                [] v = "flat" -> IF grow = MaxGrow THEN End("fail") ELSE grow' = grow + 1 /\ UNCHANGED <<i, ph, nit, done, res>>
                [] OTHER -> ph' = "try" /\ nit' = 0 /\ UNCHANGED <<i, grow, done, res>>
Try == /\ res = "run" /\ ph = "try"
       /\ \E v \in Vals : Call(v) /\
            CASE v = "raise" -> End("raised")
              [] v = "above" -> End("notmax")
              [] nit + 1 > MaxIter -> End("fail")
              [] v = "hit" -> /\ done' = done \cup {i} /\ nit' = 0 /\ grow' = 0 /\ ph' = "guess"
                              /\ i' = (IF i = Dim THEN i ELSE i + 1)
                              /\ res' = (IF i = Dim THEN "ok" ELSE "run")
              [] OTHER -> ph' = "slope" /\ nit' = nit + 1 /\ UNCHANGED <<i, grow, done, res>>
Slope == /\ res = "run" /\ ph = "slope"
         /\ \E v \in Vals : Call(v) /\
              CASE v = "raise" -> End("raised")
                [] v = "above" -> End("notmax")
                [] OTHER -> ph' = "try" /\ UNCHANGED <<i, nit, grow, done, res>>
\* on return the work array is dropped (or, in place, restored only on success)
Next == Guess \/ Try \/ Slope
Spec == Init /\ [][Next]_vars
Untouched == mode = "kept"
OneCoordinate == Cardinality(coord) <= 1
ResultComplete == res = "ok" => done = 1..Dim
NeverBeyondMax == (\E k \in 1..Len(h) : h[k] = "above") => res = "notmax"
Raised == (\E k \in 1..Len(h) : h[k] = "raise") <=> res = "raised"
Bounded == Len(h) <= Dim * (MaxGrow + 2 + 2 * MaxIter)
EmitC == (Emit /\ res # "run") => PrintT("@@BEH " \o ToJson([h |-> h, res |-> res]))
=============================================================================
