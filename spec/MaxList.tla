------------------------------ MODULE MaxList ------------------------------
(***************************************************************************)
(* A bounded list of labelled maxima.  Values are integers, the dynamic    *)
(* range R an integer in half units (values count 2), or -1 for none, so   *)
(* that no difference of values equals it except 0.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Within(L, R) == IF L = <<>> THEN L ELSE SelectSeq(L, LAMBDA e : 2 * (L[1].q - e.q) <= R)
Limit(L, R) == IF R < 0 THEN L ELSE Within(L, R)
Trim(L, N) == IF N < 0 \/ Len(L) <= N THEN L ELSE SubSeq(L, 1, N)
\* insert after all entries that are at least as large
Ins(L, q, lab) == LET k == Cardinality({j \in 1..Len(L) : L[j].q >= q})
                  IN SubSeq(L, 1, k) \o <<[q |-> q, lab |-> lab]>> \o SubSeq(L, k + 1, Len(L))
Update(L, N, R, q, lab) == Limit(Trim(Ins(L, q, lab), N), R)
Sorted(L) == \A j \in 1..Len(L) - 1 : L[j].q > L[j + 1].q \/ (L[j].q = L[j + 1].q /\ L[j].lab < L[j + 1].lab)
\* The definition without history: the best N of what was seen, cut at the range.
Best(S, N, R) ==
  LET B == SetToSortSeq(S, LAMBDA a, b : a.q > b.q \/ (a.q = b.q /\ a.lab < b.lab))
  IN Limit(Trim(B, N), R)
=============================================================================
