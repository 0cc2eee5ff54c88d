------------------------------ MODULE BackupMC ------------------------------
(* The sequence of file operations of an overwrite, with a crash or a      *)
(* failed operation possible between and during any of them.               *)
EXTENDS Backup, Json
CONSTANTS MaxOps, Emit
VARIABLES D,      \* directory
          B,      \* directory when the overwrite began
          pc, ver, hist
vars == <<D, B, pc, ver, hist>>
Partial == -1
Names == {"f", "f%", "f%%", "g"}
Init == /\ \E S \in SUBSET Names : D = [n \in S |-> CASE n = "f" -> 3 [] n = "f%" -> 2 [] n = "f%%" -> 1 [] OTHER -> 9]
        /\ B = D /\ pc = "idle" /\ ver = 10 /\ hist = <<[op |-> "init", d |-> D]>>
Log(x) == hist' = Append(hist, x)
Begin == /\ pc = "idle" /\ Len(hist) <= MaxOps /\ B' = D /\ ver' = ver + 1
         /\ pc' = IF Has(D, "f") THEN IF Has(D, "f%") THEN "r1" ELSE "r2" ELSE "open"
         /\ UNCHANGED <<D, hist>>
R1 == pc = "r1" /\ D' = Rename(D, "f%", "f%%") /\ pc' = "r2" /\ UNCHANGED <<B, ver, hist>>
R2 == pc = "r2" /\ D' = Rename(D, "f", "f%") /\ pc' = "open" /\ UNCHANGED <<B, ver, hist>>
Open == pc = "open" /\ D' = Put(D, "f", 0) /\ pc' = "write" /\ UNCHANGED <<B, ver, hist>>
Write == pc = "write" /\ D' = Put(D, "f", Partial) /\ pc' = "close" /\ UNCHANGED <<B, ver, hist>>
Close == pc = "close" /\ D' = Put(D, "f", ver) /\ pc' = "idle" /\ Log([op |-> "save", at |-> "end"]) /\ UNCHANGED <<B, ver>>
Stop == /\ pc # "idle" /\ pc' = "idle" /\ \E h \in {"crash", "fail"} : Log([op |-> h, at |-> pc])
        /\ UNCHANGED <<D, B, ver>>
Next == /\ Begin \/ R1 \/ R2 \/ Open \/ Write \/ Close \/ Stop
        /\ (Emit /\ pc # "idle" /\ pc' = "idle" /\ Len(hist') = MaxOps + 1 => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
SafeAlways == Safe(B, D, "f", "f%", "f%%")
DoneRight == [][pc = "close" /\ pc' = "idle" /\ hist'[Len(hist')].op = "save" => D' = Saved(B, "f", "f%", "f%%", ver)]_vars
=============================================================================
