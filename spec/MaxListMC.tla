----------------------------- MODULE MaxListMC -----------------------------
(* The bisection design against the definition, for every update history.  *)
EXTENDS MaxList, TLC, Json
CONSTANTS MaxOps, Vals, Emit
Ns == {-1, 1, 2, 3}
Rs == {-1, 0, 3}
VARIABLES N, R, L, A, seen, lim, hist
vars == <<N, R, L, A, seen, lim, hist>>
Init == /\ N \in Ns /\ R \in Rs /\ L = <<>> /\ A = <<>> /\ seen = {} /\ lim = FALSE /\ hist = <<>>
\* the code's insertion: early exit, bisection, then range check from the insertion point on
RECURSIVE Bis(_, _, _, _)
Bis(l, q, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF q > l[m + 1].q THEN Bis(l, q, lo, m) ELSE Bis(l, q, m + 1, hi)
CodeUpd(l, q, lab) ==
  IF Len(l) = N /\ q <= l[Len(l)].q THEN l
  ELSE LET k == Bis(l, q, 0, Len(l))
           m == Trim(SubSeq(l, 1, k) \o <<[q |-> q, lab |-> lab]>> \o SubSeq(l, k + 1, Len(l)), N)
       IN IF R < 0 THEN m
          ELSE SubSeq(m, 1, k) \o SelectSeq(SubSeq(m, k + 1, Len(m)), LAMBDA e : 2 * (m[1].q - e.q) <= R)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E q \in Vals : LET lab == Len(hist) + 1 IN
                /\ L' = Update(L, N, R, q, lab) /\ A' = CodeUpd(A, q, lab)
                /\ seen' = seen \cup {[q |-> q, lab |-> lab]} /\ hist' = Append(hist, <<"u", q>>) /\ UNCHANGED lim
           \/ \E r \in Rs \ {-1} : /\ L' = Limit(L, r) /\ A' = Limit(A, r) /\ lim' = TRUE
                                    /\ hist' = Append(hist, <<"l", r>>) /\ UNCHANGED seen
        /\ UNCHANGED <<N, R>>
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson([n |-> N, r |-> R, h |-> hist'])))
Spec == Init /\ [][Next]_vars
Right == /\ A = L /\ Sorted(L) /\ (N >= 0 => Len(L) <= N)
         /\ (~lim => L = Best(seen, N, R))
=============================================================================
