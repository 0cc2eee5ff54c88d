------------------------------ MODULE ZBracket ------------------------------
(***************************************************************************)
(* Outward search for a sign change.  The function is an adversary: every  *)
(* evaluation at a new end returns any value.  Positions are abstract: the *)
(* interval is (lo, hi) counted in expansions of either end.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTries, MaxV, Emit
VARIABLES f1, f2, a, b, tries, lim, res, h
vars == <<f1, f2, a, b, tries, lim, res, h>>
Vals == -MaxV..MaxV
Abs(x) == IF x < 0 THEN -x ELSE x
Opp(x, y) == x * y < 0
Init == /\ f1 \in Vals /\ f2 \in Vals /\ a = 0 /\ b = 0 /\ tries = 0 /\ lim \in 0..MaxTries
        /\ res = "run" /\ h = <<f1, f2>>
Found == res = "run" /\ Opp(f1, f2) /\ res' = "found" /\ UNCHANGED <<f1, f2, a, b, tries, lim, h>>
Expand == /\ res = "run" /\ ~Opp(f1, f2) /\ tries < lim /\ tries' = tries + 1
          /\ \E v \in Vals : /\ h' = Append(h, v)
                             /\ IF Abs(f1) < Abs(f2) THEN f1' = v /\ a' = a + 1 /\ UNCHANGED <<f2, b>>
                                ELSE f2' = v /\ b' = b + 1 /\ UNCHANGED <<f1, a>>
          /\ UNCHANGED <<lim, res>>
Fail == res = "run" /\ ~Opp(f1, f2) /\ tries = lim /\ res' = "fail" /\ UNCHANGED <<f1, f2, a, b, tries, lim, h>>
Next == Found \/ Expand \/ Fail
Spec == Init /\ [][Next]_vars
\* a result has opposite signs, a failure used up its expansions and has none
Sound == (res = "found" => Opp(f1, f2)) /\ (res = "fail" => ~Opp(f1, f2) /\ tries = lim)
Outward == a + b = tries /\ Len(h) = 2 + tries
EmitC == (Emit /\ res # "run") => PrintT("@@BEH " \o ToJson([h |-> h, lim |-> lim, res |-> res, a |-> a, b |-> b]))
=============================================================================
