------------------------------ MODULE GridFit ------------------------------
(***************************************************************************)
(* Evaluation of an inference (fit): a grid loop over the stepping         *)
(* parameters that scores, or optimises over the varying parameters, at    *)
(* each grid point.  The optimiser is any procedure that returns a point   *)
(* no worse than its start and leaves the model there.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N1, N2,      \* steps of the two stepping parameters
          NV,          \* number of values of the varying parameter (1: none varies)
          MaxSense,    \* TRUE: larger scores are better
          Tables       \* score tables to consider
VARIABLES f,           \* the score table in force
          ix, dir,     \* position of the traversal
          v,           \* varying parameter
          ent, vent,   \* the two result grids
          opt,         \* running best: <<>> or <<value, index>>
          pc
vars == <<f, ix, dir, v, ent, vent, opt, pc>>
Idx == (0..N1-1) \X (0..N2-1)
None == -99
F(k, w) == (f[1] * k[1] + f[2] * k[2] + f[3] * w + f[4] * w * w) % f[5]
Good(a, b) == IF MaxSense THEN a > b ELSE a < b
GoodEq(a, b) == Good(a, b) \/ a = b
\* The traversal may have been left anywhere when the evaluation starts.
Init == /\ f \in Tables /\ v \in 0..NV-1
        /\ ix \in Idx /\ dir \in {1, -1}
        /\ ent = [k \in Idx |-> None] /\ vent = [k \in Idx |-> None]
        /\ opt = <<>> /\ pc = "start"
Start == /\ pc = "start" /\ ix' = <<0, 0>> /\ dir' = 1 /\ pc' = "eval"
         /\ UNCHANGED <<f, v, ent, vent, opt>>
Eval == /\ pc = "eval" /\ pc' = "step"
        /\ \E w \in 0..NV-1 :
             /\ GoodEq(F(ix, w), F(ix, v))
             /\ v' = w
             /\ ent' = [ent EXCEPT ![ix] = F(ix, w)]
             /\ vent' = [vent EXCEPT ![ix] = w]
             /\ opt' = IF opt = <<>> \/ Good(F(ix, w), opt[1]) THEN <<F(ix, w), ix>> ELSE opt
        /\ UNCHANGED <<f, ix, dir>>
Step == /\ pc = "step"
        /\ IF ix[1] + dir \in 0..N1-1 THEN ix' = <<ix[1] + dir, ix[2]>> /\ dir' = dir /\ pc' = "eval"
           ELSE IF ix[2] + 1 < N2 THEN ix' = <<ix[1], ix[2] + 1>> /\ dir' = -dir /\ pc' = "eval"
           ELSE ix' = <<0, 0>> /\ dir' = 1 /\ pc' = "done"
        /\ UNCHANGED <<f, v, ent, vent, opt>>
Next == Start \/ Eval \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Every entry, once written, is the score of its own point at the companion value.
OwnPoint == \A k \in Idx : ent[k] # None => ent[k] = F(k, vent[k])
Complete == pc = "done" => /\ \A k \in Idx : ent[k] # None
                           /\ ix = <<0, 0>> /\ dir = 1
                           /\ ent[opt[2]] = opt[1]
                           /\ \A k \in Idx : GoodEq(opt[1], ent[k])
\* An entry is never overwritten (each point is visited once).
Once == [][\A k \in Idx : ent[k] # None => ent'[k] = ent[k]]_vars
Terminates == <>(pc = "done")
=============================================================================
