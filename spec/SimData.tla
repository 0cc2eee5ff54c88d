------------------------------ MODULE SimData ------------------------------
(***************************************************************************)
(* Working data of predictors.  A datum is [x: location, s: uncertainty,   *)
(* v: value]; a data set is a sequence of data.  D is the data of one      *)
(* predictor in one object; every operation concerns one (object,          *)
(* predictor) pair and leaves all others alone.  A simulated value is      *)
(* whatever the operation produced (nv), subject to being the prediction   *)
(* at the datum's location plus noise of the datum's size.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Upto(n) == [j \in 1..n |-> j]
\* Result of operation a on data D: which data it simulates, and their locations
\* and uncertainties; or a rejection.
Sim(D, xs, ss) ==
  LET n == IF xs = <<>> THEN Len(D) ELSE Len(xs)
      m == IF ss = <<>> THEN Len(D) ELSE Len(ss)
  IN IF n # m THEN [ok |-> FALSE, d |-> D, new |-> {}]
     ELSE [ok |-> TRUE, new |-> 1..n,
           d |-> [j \in 1..n |-> [x |-> IF xs = <<>> THEN D[j].x ELSE xs[j],
                                  s |-> IF ss = <<>> THEN D[j].s ELSE ss[j],
                                  v |-> IF j <= Len(D) THEN D[j].v ELSE D[1].v]]]
Sim1(D, k, xs, ss) ==
  [ok |-> TRUE, new |-> {k},
   d |-> [D EXCEPT ![k] = [x |-> IF xs = <<>> THEN D[k].x ELSE xs[1], s |-> IF ss = <<>> THEN D[k].s ELSE ss[1], v |-> D[k].v]]]
Add(D, xs, ss) ==
  IF Len(xs) # Len(ss) \/ xs = <<>> THEN [ok |-> FALSE, d |-> D, new |-> {}]
  ELSE [ok |-> TRUE, new |-> (Len(D) + 1)..(Len(D) + Len(xs)),
        d |-> D \o [j \in 1..Len(xs) |-> [x |-> xs[j], s |-> ss[j], v |-> D[1].v]]]
\* Whether data with these numbers of locations, values and uncertainties, and locations
\* of this rank (1: scalars, 2: vectors), can be declared.
Declarable(lens, rank) == lens[1] = lens[2] /\ lens[2] = lens[3] /\ rank <= 2
Do(D, op, k, xs, ss) == CASE op = "sim" -> Sim(D, xs, ss)
                          [] op = "sim1" -> Sim1(D, k, xs, ss)
                          [] op = "add" -> Add(D, xs, ss)
=============================================================================
