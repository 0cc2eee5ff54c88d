------------------------------- MODULE PpsMC -------------------------------
(***************************************************************************)
(* (1) The specified scheme has the promised probabilities: exact checks   *)
(* over all small weights (ASSUMEs).  (2) The preparation protocol: ratios *)
(* belong to one sample size and tables to one set of ratios; whatever the *)
(* history of requests, sampling uses preparations for the size asked for. *)
(***************************************************************************)
EXTENDS Pps, TLC, Json
CONSTANTS MaxW, NPop, MaxOps, Emit
VARIABLES init, ratios, tables, used, hist
vars == <<init, ratios, tables, used, hist>>

\* all sequences of n different items out of np
Tuples(np, n) == {f \in [1..n -> 1..np] : \A a, b \in 1..n : a # b => f[a] # f[b]}
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
Weight(ws, r, f) == ws[f[1]] * ProdTo([k \in 1..(Len(f) - 1) |-> r[f[k + 1]]], Len(f) - 1)
RECURSIVE SumSet(_, _, _)
SumSet(ws, r, S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN Weight(ws, r, f) + SumSet(ws, r, S \ {f})
\* Sampford's theorem: an item is included with probability n w / W.
Inclusion(ws, n) == LET T == Tuples(Len(ws), n)
                        r == Ratios(ws, n)
                        all == SumSet(ws, r, T)
                    IN \A i \in 1..Len(ws) :
                         SumSet(ws, r, {f \in T : \E k \in 1..n : f[k] = i}) * Tot(ws) = n * ws[i] * all
ASSUME \A np \in 3..4 : \A ws \in [1..np -> 1..MaxW] : \A n \in 2..(np - 1) :
         n * Max(ws) < Tot(ws) => Inclusion(ws, n)
\* The tables represent each probability to 30 bits: P = sum of digit * unit <= 2^30 w/W < P + 1.
RECURSIVE SumU(_, _)
SumU(d, k) == IF k = 0 THEN 0 ELSE d[k] * Unit(k) + SumU(d, k - 1)
ASSUME \A ws \in [1..3 -> 0..MaxW] : Tot(ws) > 0 /\ Certain(ws) = {} =>
         \A i \in 1..3 : LET P == SumU([k \in 1..5 |-> Digits(ws)[k][i]], 5) IN
            \* 2^30 w = P W + remainder, checked without leaving 32 bits
            /\ Rem(ws[i], Tot(ws), 5) < Tot(ws)
            /\ (P % 64) * Tot(ws) + Rem(ws[i], Tot(ws), 5) = 64 * Rem(ws[i], Tot(ws), 4)
\* Lookups find an item in proportion: at the ends of each table's range too.
ASSUME \A ws \in {<<1, 2, 3>>, <<0, 5, 2>>, <<7, 7, 7>>} : LET dg == Digits(ws) IN
         \A k \in 1..5 : \A s \in 0..(Sum(dg[k], 3) - 1) : LET t == SumU([m \in 1..5 |-> IF m < k THEN Sum(dg[m], 3) ELSE 0], 5) IN
            /\ Find(dg, t + s * Unit(k), 1, 0) = Slot(dg[k], s)
            /\ Find(dg, t + s * Unit(k) + Unit(k) - 1, 1, 0) = Slot(dg[k], s)

Sizes == 1..(NPop + 1)
Fits(n) == n < NPop - 1
Init == init = FALSE /\ ratios = 0 /\ tables = 0 /\ used = <<>> /\ hist = <<>>
Log(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
Sample == init' = TRUE /\ UNCHANGED <<ratios, tables>> /\ used' = <<>> /\ Log("sample", 2)
Whole(op) == UNCHANGED <<init, ratios, tables>> /\ used' = <<>> /\ Log(op, NPop)
Reject(op, n) == ~Fits(n) /\ n # NPop /\ init' = TRUE /\ UNCHANGED <<ratios, tables>> /\ used' = <<>> /\ Log(op, n)
Pps(n) == /\ Fits(n) /\ init' = TRUE
          /\ ratios' = n
          /\ tables' = IF ratios = n THEN tables ELSE 0
          /\ used' = <<n, ratios', n>> /\ Log("pps", n)
Pps5(n) == /\ Fits(n) /\ init' = TRUE
           /\ ratios' = n /\ tables' = n
           /\ used' = <<n, ratios', tables'>> /\ Log("pps5", n)
Next == /\ Len(hist) < MaxOps
        /\ \/ Sample \/ Whole("pps") \/ Whole("pps5")
           \/ \E n \in Sizes : Reject("pps", n) \/ Reject("pps5", n) \/ Pps(n) \/ Pps5(n)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
RightPreparation == used # <<>> => used[2] = used[1] /\ used[3] = used[1] /\ init
TablesCurrent == tables # 0 => tables = ratios
=============================================================================
