------------------------------- MODULE RngMC -------------------------------
(* Histories of draws, saves and restores.  A state is the number of draws *)
(* since the seed; whether a spare normal deviate is held is its parity.   *)
EXTENDS RngStore, Json
CONSTANTS MaxOps, MaxDraw, Emit
VARIABLES S, hist
vars == <<S, hist>>
Init == S = [cur |-> 1, files |-> Empty] /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Names == {"s", "r"}
Gens == {"s", "s.1", "s.2", "r"}
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in 1..MaxDraw : S' = [S EXCEPT !.cur = @ + k] /\ Log([op |-> "draw", n |-> k, p |-> ""])
           \/ \E p \in Names : S' = SaveR(S, p) /\ Log([op |-> "save", n |-> 0, p |-> p])
           \/ \E p \in Gens : S' = RestoreR(S, p) /\ Log([op |-> "restore", n |-> 0, p |-> p])
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
SaveUndisturbed == [][Last.op = "save" \/ (Last.op = "restore" /\ Last.p \notin DOMAIN S.files) => S'.cur = S.cur /\ RestoreR(S', Last.p).cur = S.cur]_vars
LastThree == [][Last.op = "save" => /\ S'.files[Last.p] = S.cur
                                    /\ (Last.p \in DOMAIN S.files => S'.files[Last.p \o ".1"] = S.files[Last.p])
                                    /\ (Last.p \in DOMAIN S.files /\ (Last.p \o ".1") \in DOMAIN S.files => S'.files[Last.p \o ".2"] = S.files[Last.p \o ".1"])]_vars
RestoreKeepsFiles == [][Last.op = "restore" /\ Last.p \in DOMAIN S.files => S'.files = S.files]_vars
=============================================================================
