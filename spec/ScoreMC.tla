------------------------------ MODULE ScoreMC ------------------------------
(***************************************************************************)
(* Objects that keep the predictions of their last evaluation.  Predictions*)
(* may be reused only while neither a parameter of the object nor the data *)
(* of the predictor has changed: the statistic that is reported is then    *)
(* always that of the current state (Current), whatever the history.       *)
(* Forget = FALSE (or any cache that outlives a change) violates it.       *)
(***************************************************************************)
EXTENDS Score, TLC, Json
CONSTANTS NObj, MaxOps, Forget, Emit
VARIABLES q, D, mem, told, hist
vars == <<q, D, mem, told, hist>>
Orig == <<<<[x |-> <<1>>, v |-> 2, z |-> 1], [x |-> <<2>>, v |-> 5, z |-> 2]>>, <<[x |-> <<0>>, v |-> 1, z |-> 1]>>>>
Meth == <<"chisqr", "maxlike", "bayes">>
NP == Len(Orig)
Init == /\ q = [o \in 1..NObj |-> <<0, 1>>] /\ D = [o \in 1..NObj |-> Orig]
        /\ mem = [o \in 1..NObj |-> [p \in 1..NP |-> <<>>]] /\ told = <<>> /\ hist = <<>>
SetP(o, k, v) == /\ q' = [q EXCEPT ![o][k] = v]
                 /\ mem' = IF Forget THEN [mem EXCEPT ![o] = [p \in 1..NP |-> <<>>]] ELSE mem
                 /\ told' = <<>> /\ UNCHANGED D /\ hist' = Append(hist, [op |-> "set", o |-> o, p |-> k, v |-> v])
Poke(o, p, f) == /\ D' = [D EXCEPT ![o][p][1] = [x |-> IF f = "x" THEN <<@.x[1] + 1>> ELSE @.x, v |-> IF f = "v" THEN @.v + 3 ELSE @.v,
                                                 z |-> IF f = "s" THEN 3 - @.z ELSE @.z]]
                 /\ mem' = IF Forget THEN [mem EXCEPT ![o][p] = <<>>] ELSE mem
                 /\ told' = <<>> /\ UNCHANGED q /\ hist' = Append(hist, [op |-> "poke", o |-> o, p |-> p, f |-> f])
Grow(o, p) == /\ D' = [D EXCEPT ![o][p] = Append(@, [x |-> <<3>>, v |-> 4, z |-> 1])]
              /\ mem' = IF Forget THEN [mem EXCEPT ![o][p] = <<>>] ELSE mem
              /\ told' = <<>> /\ UNCHANGED q /\ hist' = Append(hist, [op |-> "grow", o |-> o, p |-> p])
Preds(o, p) == IF mem[o][p] # <<>> THEN mem[o][p] ELSE [j \in 1..Len(D[o][p]) |-> Pr(q[o], D[o][p][j].x)]
RECURSIVE SqFrom(_, _, _)
SqFrom(d, m, k) == IF k > Len(d) \/ k > Len(m) THEN 0 ELSE LET r == (d[k].v - m[k]) * d[k].z IN r * r + SqFrom(d, m, k + 1)
Ask(o, w) == \* w = 0: the score; otherwise one predictor's chi-squared
  LET P == IF w = 0 THEN 1..NP ELSE {w}
      l == Sum(LAMBDA j : IF j \in P THEN -SqFrom(D[o][j], Preds(o, j), 1) ELSE 0, NP, 1)
      m == IF w = 0 THEN Meth[o] ELSE "chisqr"
  IN /\ mem' = [mem EXCEPT ![o] = [p \in 1..NP |-> IF p \in P THEN Preds(o, p) ELSE @[p]]]
     /\ told' = <<o, w, CASE m = "chisqr" -> -2 * l [] m = "maxlike" -> l [] m = "bayes" -> l + LogPrior(q[o], 0)>>
     /\ UNCHANGED <<q, D>> /\ hist' = Append(hist, [op |-> "ask", o |-> o, p |-> w])
Next == /\ Len(hist) < MaxOps
        /\ \E o \in 1..NObj : \/ \E k \in 1..2, v \in {-1, 2} : SetP(o, k, v)
                              \/ \E p \in 1..NP : (\E f \in {"x", "v", "s"} : Poke(o, p, f)) \/ Grow(o, p)
                              \/ \E w \in 0..NP : Ask(o, w)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Current == told # <<>> => told[3] = IF told[2] = 0 THEN StatOf(Meth[told[1]], q[told[1]], D[told[1]], 0)
                                    ELSE Chi2(q[told[1]], D[told[1]][told[2]])
\* methods agree, for objects in the same state
Agree == \A a, b \in 1..NObj : q[a] = q[b] /\ D[a] = D[b] =>
           /\ StatOf("chisqr", q[a], D[a], 0) = -2 * StatOf("maxlike", q[b], D[b], 0)
           /\ StatOf("bayes", q[a], D[a], 0) - LogPrior(q[b], 0) = StatOf("maxlike", q[b], D[b], 0)
\* scoring changes nothing
Quiet == [][hist'[Len(hist')].op = "ask" => q' = q /\ D' = D]_vars
=============================================================================
