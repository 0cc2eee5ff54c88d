----------------------------- MODULE MinSearch -----------------------------
(***************************************************************************)
(* Bracketing and one-dimensional minimisation.  The function f is any     *)
(* table over the positions 0..N; the trial points the implementation      *)
(* computes by interpolation are adversarial: any position of the region   *)
(* the branch permits.  Search(...) is the downhill bracketing phase,      *)
(* Brent the shrinking phase with its five bookkeeping points.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, V, MaxIt, Emit
VARIABLES f, ph, x1, xm, x2, a, b, v, w, x, it, ev, x0, a0, b0
vars == <<f, ph, x1, xm, x2, a, b, v, w, x, it, ev, x0, a0, b0>>
P == 0..N
Between(p, q, r) == (p < q /\ q < r) \/ (p > q /\ q > r)   \* strictly
Beyond(p, q) == {u \in P : Between(p, q, u)}               \* past q, coming from p
Init ==
  /\ f \in [P -> 0..V]
  /\ \E p \in P : \E q \in P \ {p} : \E r \in (IF f[q] > f[p] THEN Beyond(q, p) ELSE Beyond(p, q)) :
        /\ x1 = (IF f[q] > f[p] THEN q ELSE p)
        /\ xm = (IF f[q] > f[p] THEN p ELSE q)
        /\ x2 = r
        /\ ev = {p, q, r}
        /\ x0 = p
  /\ ph = "bracket"
  /\ a = 0 /\ b = 0 /\ v = 0 /\ w = 0 /\ x = 0 /\ it = 0 /\ a0 = 0 /\ b0 = 0
BU == UNCHANGED <<f, v, w, x, it, x0, a, b, a0, b0>>
Shift(u) == x1' = xm /\ xm' = x2 /\ x2' = u
Inside == /\ ph = "bracket" /\ f[xm] > f[x2]
          /\ \E u \in {u \in P : Between(xm, u, x2)} :
               \/ f[u] < f[x2] /\ x1' = xm /\ xm' = u /\ x2' = x2 /\ ev' = ev \cup {u}
               \/ f[u] >= f[x2] /\ f[u] > f[xm] /\ x2' = u /\ UNCHANGED <<x1, xm>> /\ ev' = ev \cup {u}
               \/ f[u] >= f[x2] /\ f[u] <= f[xm] /\ \E g \in Beyond(xm, x2) : Shift(g) /\ ev' = ev \cup {u, g}
          /\ UNCHANGED ph /\ BU
Outside == /\ ph = "bracket" /\ f[xm] > f[x2]
           /\ \E u \in Beyond(xm, x2) :
                \/ Shift(u) /\ ev' = ev \cup {u}
                \/ /\ f[u] < f[x2]
                   /\ \E g \in Beyond(x2, u) : x1' = x2 /\ xm' = u /\ x2' = g /\ ev' = ev \cup {u, g}
           /\ UNCHANGED ph /\ BU
Bracketed == /\ ph = "bracket" /\ f[xm] <= f[x2] /\ ph' = "brent"
             /\ a' = (IF x1 < x2 THEN x1 ELSE x2) /\ b' = (IF x1 < x2 THEN x2 ELSE x1)
             /\ a0' = a' /\ b0' = b'
             /\ v' = xm /\ w' = xm /\ x' = xm /\ it' = 0
             /\ UNCHANGED <<f, x1, xm, x2, ev, x0>>
Trial == /\ ph = "brent" /\ it < MaxIt /\ it' = it + 1
         /\ \E u \in {u \in P : a < u /\ u < b /\ u # x} :
              /\ ev' = ev \cup {u}
              /\ IF f[u] <= f[x]
                 THEN /\ IF u >= x THEN a' = x /\ b' = b ELSE b' = x /\ a' = a
                      /\ v' = w /\ w' = x /\ x' = u
                 ELSE /\ IF u < x THEN a' = u /\ b' = b ELSE b' = u /\ a' = a
                      /\ x' = x
                      /\ IF f[u] <= f[w] \/ w = x THEN v' = w /\ w' = u
                         ELSE w' = w /\ v' = (IF f[u] <= f[v] \/ v = x \/ v = w THEN u ELSE v)
         /\ UNCHANGED <<f, ph, x1, xm, x2, x0, a0, b0>>
Return == /\ ph = "brent" /\ ph' = "done"
          /\ UNCHANGED <<f, x1, xm, x2, a, b, v, w, x, it, ev, x0, a0, b0>>
GiveUp == /\ ph = "brent" /\ it = MaxIt /\ b - a > 1 /\ ph' = "error"
          /\ UNCHANGED <<f, x1, xm, x2, a, b, v, w, x, it, ev, x0, a0, b0>>
Next == Inside \/ Outside \/ Bracketed \/ Trial \/ Return \/ GiveUp
Stop == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ordered == Between(x1, xm, x2) /\ {x1, xm, x2} \subseteq ev
Middle == f[xm] <= f[x1]                                   \* in every state of the bracketing
IsBracket == ph # "bracket" => f[xm] <= f[x1] /\ f[xm] <= f[x2] /\ Between(a0, xm, b0)
NotWorse == f[xm] <= f[x0] /\ (ph # "bracket" => f[x] <= f[xm])
Best == ph # "bracket" => x \in ev /\ \A u \in ev : a0 <= u /\ u <= b0 => f[x] <= f[u] \/ u \in {x1, x2}
Within == ph # "bracket" => a <= x /\ x <= b /\ a0 <= a /\ b <= b0 /\ (a < x \/ x < b)
Track == ph # "bracket" => f[x] <= f[w] /\ f[x] <= f[v] /\ {v, w, x} \subseteq ev
Unimodal(m) == /\ \A p \in P : p < m => f[p] > f[p + 1]
               /\ \A p \in P : p > m => f[p - 1] < f[p]
Contains == ph # "bracket" => \A m \in P : Unimodal(m) => a <= m /\ m <= b
Shrinks == [][ph = "brent" => a' >= a /\ b' <= b /\ f[x'] <= f[x]]_vars
EmitC == (Emit /\ ph = "bracket" /\ Cardinality(ev) = 3) => PrintT("@@BEH " \o ToJson([f |-> [p \in 1..(N + 1) |-> f[p - 1]], x |-> <<x1, xm>>]))
=============================================================================
