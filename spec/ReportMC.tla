------------------------------ MODULE ReportMC ------------------------------
(***************************************************************************)
(* An inference whose parameters change while snapshots and grids taken    *)
(* earlier are kept and reported.  Taking something copies what it will    *)
(* report (Copy = FALSE keeps references to the live parameters instead    *)
(* and violates Frozen).                                                   *)
(***************************************************************************)
EXTENDS Report, TLC, Json
CONSTANTS MaxOps, Copy, Emit
VARIABLES v, sp, ax, kept, told, hist
vars == <<v, sp, ax, kept, told, hist>>
Names == <<"p", "q">>
Docs == <<"first", "">>
Grids == {[a |-> 0, b |-> 4, n |-> 3, k |-> "lin"], [a |-> 1, b |-> 4, n |-> 2, k |-> "log"]}
Init == /\ v = <<1, 2>> /\ sp = <<>> /\ ax = [k \in 1..2 |-> [a |-> 0, b |-> 0, n |-> 0, k |-> "no"]]
        /\ kept = <<>> /\ told = <<>> /\ hist = <<>>
Do(e) == hist' = Append(hist, e)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Set(p, x) == /\ v' = [v EXCEPT ![p] = x] /\ sp' = Without(sp, Names[p]) /\ told' = <<>> /\ UNCHANGED <<ax, kept>> /\ Do([op |-> "set", p |-> p, v |-> x])
Step(p, g) == /\ v' = [v EXCEPT ![p] = g.a] /\ ax' = [ax EXCEPT ![p] = g] /\ told' = <<>> /\ UNCHANGED kept
              /\ sp' = (IF \E k \in 1..Len(sp) : sp[k] = Names[p] THEN sp ELSE Append(sp, Names[p]))
              /\ Do([op |-> "step", p |-> p, g |-> g])
Take(w) == /\ (w = "grid" => sp # <<>>) /\ kept' = Append(kept, [w |-> w, was |-> <<v, sp, ax>>]) /\ told' = <<>>
           /\ UNCHANGED <<v, sp, ax>> /\ Do([op |-> "take", w |-> w])
Text(w, s) == IF w = "snap" THEN Lines(Names, Docs, s[1]) ELSE Axes(Names, s[2], s[3])
Show(k) == /\ LET live == <<v, sp, ax>> IN
              told' = IF k = 0 THEN <<0, Lines(Names, Docs, v)>> ELSE <<k, Text(kept[k].w, IF Copy THEN kept[k].was ELSE live)>>
           /\ UNCHANGED <<v, sp, ax, kept>> /\ Do([op |-> "show", k |-> k])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E p \in 1..2, x \in {3, 5} : Set(p, x)
           \/ \E p \in 1..2, g \in Grids : Step(p, g)
           \/ \E w \in {"snap", "grid"} : Take(w)
           \/ \E k \in 0..Len(kept) : Show(k)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Frozen == told # <<>> => told[2] = IF told[1] = 0 THEN Lines(Names, Docs, v) ELSE Text(kept[told[1]].w, kept[told[1]].was)
\* every parameter is told of once, in order
Complete == told # <<>> /\ told[1] = 0 => [k \in 1..Len(told[2]) |-> told[2][k].n] = Names
Quiet == [][hist'[Len(hist')].op = "show" => v' = v /\ sp' = sp /\ ax' = ax /\ kept' = kept]_vars
=============================================================================
