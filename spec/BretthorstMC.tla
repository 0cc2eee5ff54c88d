---------------------------- MODULE BretthorstMC ----------------------------
(***************************************************************************)
(* The memoising design: the stored design matrix, amplitudes and          *)
(* statistics are replaced together, and only when an evaluation succeeds. *)
(***************************************************************************)
EXTENDS Bretthorst, TLC, Json
CONSTANTS Configs, Pars, MaxOps, Emit
VARIABLES c, last, mods, amps, hist
vars == <<c, last, mods, amps, hist>>
Cfgs == IF Configs = 1 THEN {[m |-> 2, aux |-> FALSE, data |-> <<[x |-> 0, y |-> 1, z |-> 1], [x |-> 1, y |-> -1, z |-> 2], [x |-> 2, y |-> 2, z |-> 1]>>]}
        ELSE {[m |-> m, aux |-> a, data |-> d] : m \in 1..2, a \in BOOLEAN,
              d \in {<<[x |-> 0, y |-> 1, z |-> 1], [x |-> x, y |-> y, z |-> 2], [x |-> 2, y |-> 2, z |-> z]>> : x \in 0..(IF Configs = 2 THEN 1 ELSE 2), y \in 0..1, z \in 1..2}}
PV == (2 - Pars)..1
Ps == {<<p, q>> : p \in PV, q \in PV} \cup {<<9, 0>>, <<0, 9>>}
Ops == {"marg", "ampl", "resid", "covar"}
Init == c \in Cfgs /\ last = <<>> /\ mods = <<>> /\ amps = <<>> /\ hist = <<>>
Eval(P) == /\ last' = P
           /\ mods' = [k \in 1..c.m |-> [i \in 1..N(c) |-> G(c, k, i, P)]]
           /\ amps' = [k \in 1..c.m |-> Amp(c, k, P)]
Do(op, P) == /\ hist' = Append(hist, [op |-> op, p |-> P])
             /\ c' = c
             /\ IF P # <<>> /\ P # last /\ Good(c, P) THEN Eval(P) ELSE UNCHANGED <<last, mods, amps>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops : \E P \in (IF op = "covar" THEN {<<>>} ELSE IF op = "marg" THEN Ps ELSE Ps \cup {<<>>}) : Do(op, P)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
\* residuals computed from the stored matrix and amplitudes belong to the stored parameters
Consistent == last # <<>> => /\ Det(c, last) > 0
  /\ \A i \in 1..N(c) : D(c, i) * Det(c, last) - SumTo([k \in 1..c.m |-> amps[k] * mods[k][i]], c.m) = Res(c, i, last)
\* the amplitudes are the least-squares ones: the residuals are orthogonal to the basis, and Q is their square
LeastSquares == last # <<>> =>
  /\ \A k \in 1..c.m : SumTo([i \in 1..N(c) |-> Res(c, i, last) * G(c, k, i, last)], N(c)) = 0
  /\ SumTo([i \in 1..N(c) |-> Res(c, i, last) * Res(c, i, last)], N(c)) = Q(c, last) * Det(c, last)
  /\ Q(c, last) >= 0
Memo == [][hist' # hist => last' = After(c, last, hist'[Len(hist')].op, hist'[Len(hist')].p)]_vars
=============================================================================
