------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* What a refinement of a list of sampled intervals has to achieve.        *)
(* L is a sequence of [a, b, s, n]: bounds, step and number of points,     *)
(* over an ordered domain with order Lt and slack order Le.  The same      *)
(* operators are used on rationals (design) and on recorded floats.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Lt(_, _), Le(_, _), Add(_, _), Sub(_, _), DivN(_, _), Wide(_, _)
\* Le: not larger apart from roundoff; Wide: larger by more than roundoff; DivN: divided by an integer
Tiles(L, lo, hi) ==
  /\ Len(L) >= 1 /\ L[1].a = lo /\ L[Len(L)].b = hi
  /\ \A j \in 1..Len(L) : Lt(L[j].a, L[j].b) /\ L[j].n >= 2
  /\ \A j \in 1..Len(L) - 1 : L[j].b = L[j + 1].a
Mx(x, y) == IF Lt(x, y) THEN y ELSE x
Mn(x, y) == IF Lt(x, y) THEN x ELSE y
Overlap(I, lo, hi) == Wide(Mn(I.b, hi), Mx(I.a, lo))
NeverCoarser(O, L) ==
  \A j \in 1..Len(O) : \A k \in 1..Len(L) : Overlap(O[j], L[k].a, L[k].b) => Le(L[k].s, O[j].s)
\* the coarsest step at x (two intervals meet at a boundary)
Near(I, x) == ~Wide(I.a, x) /\ ~Wide(x, I.b)
StepAt(O, x) == LET S == {O[j].s : j \in {j \in 1..Len(O) : Near(O[j], x)}} IN CHOOSE s \in S : \A r \in S : ~Lt(s, r)
\* lo, hi: the requested range cut to the base; n: requested number of points
Dense(O, L, lo, hi, n) ==
  LET s0 == DivN(Sub(hi, lo), n - 1)
      sl == StepAt(O, lo)
      sh == StepAt(O, hi)
      unresolved == Le(s0, DivN(sl, 5))
      s1 == DivN(Add(Sub(hi, lo), Add(sl, sh)), n - 1)
      want == IF unresolved THEN s1 ELSE s0
  IN \A k \in 1..Len(L) : Overlap(L[k], lo, hi) => Le(L[k].s, want)
SameSampling(O, L) ==
  \A j \in 1..Len(O) : \A k \in 1..Len(L) : Overlap(O[j], L[k].a, L[k].b) => Le(O[j].s, L[k].s)
CoarserKeeps(O, L, lo, hi, n) ==
  \A j \in 1..Len(O) :
    (Wide(lo, O[j].a) \/ j = 1) /\ (Wide(O[j].b, hi) \/ j = Len(O)) /\ Wide(DivN(Sub(hi, lo), n - 1), O[j].s) => SameSampling(O, L)
\* nothing changes away from the range
OutsideKept(O, L, lo, hi) ==
  LET l == Sub(lo, StepAt(O, lo))
      h == Add(hi, StepAt(O, hi))
  IN \A j \in 1..Len(O) : \A k \in 1..Len(L) :
       LET a == Mx(O[j].a, L[k].a) b == Mn(O[j].b, L[k].b)
       IN Wide(b, a) /\ (Wide(l, a) \/ Wide(b, h)) => Le(O[j].s, L[k].s)
=============================================================================
