----------------------------- MODULE ColumnsMC -----------------------------
(***************************************************************************)
(* The caller skips header lines, then the columns are read line by line;  *)
(* a line that lacks a column or cannot be converted ends the reading with *)
(* an error.  Further reads start at the end of the file.                  *)
(***************************************************************************)
EXTENDS Columns, TLC, Json
CONSTANTS MaxLines, MaxWords, MaxTypes, Emit
VARIABLES lines, ts, pos, start, cols, phase
vars == <<lines, ts, pos, start, cols, phase>>
Words == {[k |-> "i", v |-> 1, s |-> "1"], [k |-> "f", v |-> 2500, s |-> "2.5"], [k |-> "s", v |-> 0, s |-> "x"]}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Types == {"int", "float", "str"}
Init == /\ lines \in Seqs(Seqs(Words, MaxWords), MaxLines) /\ ts \in Seqs(Types, MaxTypes)
        /\ pos = 0 /\ start = 0 /\ cols = <<>> /\ phase = "open"
Skip == phase = "open" /\ pos < Len(lines) /\ pos' = pos + 1 /\ UNCHANGED <<lines, ts, start, cols, phase>>
Begin == phase \in {"open", "done"} /\ phase' = "reading" /\ start' = pos /\ cols' = [j \in 1..Len(ts) |-> <<>>] /\ UNCHANGED <<lines, ts, pos>>
Line == /\ phase = "reading" /\ pos < Len(lines)
        /\ pos' = pos + 1
        /\ IF Good(ts, lines[pos + 1])
           THEN phase' = phase /\ cols' = [j \in 1..Len(ts) |-> Append(cols[j], Cell(ts[j], lines[pos + 1][j]))]
           ELSE phase' = "error" /\ cols' = <<>>
        /\ UNCHANGED <<lines, ts, start>>
End == phase = "reading" /\ pos = Len(lines) /\ phase' = "done" /\ UNCHANGED <<lines, ts, pos, start, cols>>
Next == Skip \/ Begin \/ Line \/ End
Spec == Init /\ [][Next]_vars
Rect == phase = "reading" => \A j \in 1..Len(ts) : Len(cols[j]) = pos - start
Faithful == phase = "done" => cols = Expected(ts, SubSeq(lines, start + 1, Len(lines)))
NoPartial == /\ (phase = "done" => AllGood(ts, Rest(lines, start)))
             /\ (phase = "error" => ~AllGood(ts, Rest(lines, start)))
EmitC == (Emit /\ phase = "reading" /\ pos = start) => PrintT("@@BEH " \o ToJson([lines |-> lines, ts |-> ts, skip |-> pos]))
=============================================================================
