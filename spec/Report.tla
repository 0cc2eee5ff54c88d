------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What reports of an inference say.  A state is [v: value of each         *)
(* parameter, lists: names in each status], names and docs are fixed.      *)
(* A report of the inference tells the current state; one of a snapshot or *)
(* of a grid tells the state it was taken in, however the inference has    *)
(* changed since.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* one line per parameter, in declaration order; a doc is shown unless empty
Lines(names, docs, v) == [k \in 1..Len(names) |-> [n |-> names[k], v |-> v[k], d |-> docs[k]]]
\* one line per stepping parameter: limits, number and kind of steps
Axes(names, sp, ax) == [k \in 1..Len(sp) |-> LET p == CHOOSE j \in 1..Len(names) : names[j] = sp[k] IN
                          [n |-> sp[k], a |-> ax[p].a, b |-> ax[p].b, c |-> ax[p].n, k |-> ax[p].k]]
\* the points of the default plot of a grid over one parameter, in ten-thousandths of a step
PlotX(n) == [k \in 1..n |-> 10000 * (k - 1)]
\* a value keeps pc percent of the range [a, b] from both ends; Edge: exactly so much
Room(v, a, b) == 100 * (IF v - a < b - v THEN v - a ELSE b - v)
Away(v, a, b, pc) == Room(v, a, b) >= pc * (b - a)
Edge(v, a, b, pc) == Room(v, a, b) = pc * (b - a)
Plottable(axes) == \A k \in 1..Len(axes) : axes[k].k = "lin"
PlotOutcome(axes) == IF Len(axes) > 2 THEN "ValueError" ELSE IF Plottable(axes) THEN "ok" ELSE "NotImplementedError"
=============================================================================
