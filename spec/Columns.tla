------------------------------ MODULE Columns ------------------------------
(***************************************************************************)
(* Columns of data read from the lines of an open file.  A word is         *)
(* [k |-> kind, v |-> value, s |-> text]: kind "i" (an integer v), "f" (a  *)
(* decimal number v / 1000) or "s" (other text).  A column type is int,    *)
(* float, str or neg (the caller's own conversion, minus the integer).     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Can(t, w) == t = "str" \/ w.k = "i" \/ (w.k = "f" /\ t = "float")
\* the cell a word gives in a column of type t
Cell(t, w) == CASE t = "str" -> [k |-> "s", v |-> 0, s |-> w.s]
                [] t = "float" -> [k |-> "f", v |-> IF w.k = "i" THEN 1000 * w.v ELSE w.v, s |-> ""]
                [] t = "int" -> [k |-> "i", v |-> w.v, s |-> ""]
                [] t = "neg" -> [k |-> "i", v |-> -w.v, s |-> ""]
Good(ts, line) == Len(line) >= Len(ts) /\ \A j \in 1..Len(ts) : Can(ts[j], line[j])
\* lines from the present position on
Rest(lines, pos) == SubSeq(lines, pos + 1, Len(lines))
AllGood(ts, lines) == \A k \in 1..Len(lines) : Good(ts, lines[k])
Expected(ts, lines) == [j \in 1..Len(ts) |-> [k \in 1..Len(lines) |-> Cell(ts[j], lines[k][j])]]
=============================================================================
