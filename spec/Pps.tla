-------------------------------- MODULE Pps --------------------------------
(***************************************************************************)
(* Sampling a finite population with probability proportional to size.     *)
(* ws: the weights (non-negative integers).  Random numbers come as a      *)
(* stream: 30-bit integers for table lookups, uniform numbers in [0,1)     *)
(* given to U = 2^15 (u stands for [u, u+1)/U) otherwise.  A result is     *)
(* [items, used]: which items (positions) and how many numbers of the      *)
(* stream were used; <<>> items with used = -1 if the stream is too short  *)
(* or a number too coarse to decide.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Tot(ws) == Sum(ws, Len(ws))
Max(ws) == CHOOSE m \in {ws[k] : k \in 1..Len(ws)} : \A k \in 1..Len(ws) : ws[k] <= m
Undecided == [items |-> <<>>, used |-> -1]
Range(f) == {f[k] : k \in DOMAIN f}

----------------------------------------------------------------------------
(* The five-table method: probabilities to 30 bits, as five digits in base *)
(* 64; table k holds item i as often as its k-th digit says.               *)
RECURSIVE Rem(_, _, _)
Rem(w, tot, k) == IF k = 0 THEN w ELSE (Rem(w, tot, k - 1) * 64) % tot
Dig(w, tot, k) == (Rem(w, tot, k - 1) * 64) \div tot
Unit(k) == <<16777216, 262144, 4096, 64, 1>>[k]
Digits(ws) == [k \in 1..5 |-> [i \in 1..Len(ws) |-> Dig(ws[i], Tot(ws), k)]]
\* the item in slot s (from 0) of a table with counts d
Slot(d, s) == CHOOSE i \in 1..Len(d) : Sum(d, i - 1) <= s /\ s < Sum(d, i)
RECURSIVE Find(_, _, _, _)
Find(dg, j, k, t) == IF k > 5 THEN 0
                     ELSE LET sz == Sum(dg[k], Len(dg[k])) IN
                          IF (j - t) \div Unit(k) < sz THEN Slot(dg[k], (j - t) \div Unit(k))
                          ELSE Find(dg, j, k + 1, t + sz * Unit(k))
Certain(ws) == {i \in 1..Len(ws) : ws[i] = Tot(ws)}
\* One lookup from position p of the stream: [i, p] with the position after it (i = 0: stream too short)
RECURSIVE Look(_, _, _, _)
Look(ws, dg, js, p) == IF Certain(ws) # {} THEN [i |-> CHOOSE i \in Certain(ws) : TRUE, p |-> p]
                       ELSE IF p > Len(js) THEN [i |-> 0, p |-> p]
                       ELSE LET i == Find(dg, js[p], 1, 0) IN
                            IF i = 0 THEN Look(ws, dg, js, p + 1)      \* none of the tables: next number
                            ELSE [i |-> i, p |-> p + 1]
RECURSIVE Draw(_, _, _, _, _, _)
Draw(ws, dg, js, p, n, acc) == IF n = 0 THEN [items |-> acc, used |-> p - 1]
                               ELSE LET r == Look(ws, dg, js, p) IN
                                    IF r.i = 0 THEN Undecided
                                    ELSE Draw(ws, dg, js, r.p, n - 1, Append(acc, r.i))
WithRepl(ws, js, n) == Draw(ws, Digits(ws), js, 1, n, <<>>)

----------------------------------------------------------------------------
(* Sampford's method: the first item by weight, the others by the ratios   *)
(* w/(W - n w), starting again whenever an item is picked twice.           *)
RECURSIVE Prod(_, _)
Prod(f, S) == IF S = {} THEN 1 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] * Prod(f, S \ {k})
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _)
GcdAll(f, n) == IF n = 0 THEN 0 ELSE Gcd(f[n], GcdAll(f, n - 1))
\* the ratios, as integers in lowest terms
Ratios(ws, n) == LET W == Tot(ws)
                     f == [k \in 1..Len(ws) |-> W - n * ws[k]]
                     r == [k \in 1..Len(ws) |-> ws[k] * Prod(f, (1..Len(ws)) \ {k})]
                     g == GcdAll(r, Len(ws))
                 IN [k \in 1..Len(ws) |-> r[k] \div g]
\* Positions in the order of decreasing weight (weights must differ).
Order(ws) == [k \in 1..Len(ws) |-> CHOOSE i \in 1..Len(ws) : Cardinality({m \in 1..Len(ws) : ws[m] > ws[i]}) = k - 1]
Distinct(ws) == \A i, k \in 1..Len(ws) : i # k => ws[i] # ws[k]
U == 32768
\* The first k whose cumulative sum reaches u of the total; 0 if u is too coarse to tell.
Reach(f, u) == LET n == Len(f)
                   lo == u * Sum(f, n)
                   hi == (u + 1) * Sum(f, n)
               IN IF \E k \in 1..(n - 1) : Sum(f, k) * U >= lo /\ Sum(f, k) * U <= hi THEN 0
                  ELSE CHOOSE k \in 1..n : Sum(f, k) * U >= hi /\ \A m \in 1..(k - 1) : Sum(f, m) * U < lo
RECURSIVE Try(_, _, _, _, _, _)
Try(sw, sr, us, p, n, acc) ==
  IF Len(acc) = n THEN [items |-> acc, used |-> p - 1]
  ELSE IF p > Len(us) THEN Undecided
  ELSE LET k == Reach(IF acc = <<>> THEN sw ELSE sr, us[p]) IN
       IF k = 0 THEN Undecided
       ELSE IF k \in Range(acc) THEN Try(sw, sr, us, p + 1, n, <<>>)
       ELSE Try(sw, sr, us, p + 1, n, Append(acc, k))
WithoutRepl(ws, us, n) ==
  LET o == Order(ws)
      r == Ratios(ws, n)
      s == Try([k \in 1..Len(ws) |-> ws[o[k]]], [k \in 1..Len(ws) |-> r[o[k]]], us, 1, n, <<>>)
  IN [items |-> [k \in 1..Len(s.items) |-> o[s.items[k]]], used |-> s.used]
\* ... with table lookups (weights in their own order, ratios in decreasing order)
RECURSIVE Try5(_, _, _, _, _, _, _, _, _)
Try5(ws, dw, sr, dr, o, js, p, n, acc) ==
  IF Len(acc) = n THEN [items |-> acc, used |-> p - 1]
  ELSE LET r == IF acc = <<>> THEN Look(ws, dw, js, p) ELSE Look(sr, dr, js, p)
           k == IF r.i = 0 THEN 0 ELSE IF acc = <<>> THEN r.i ELSE o[r.i]
       IN IF k = 0 THEN Undecided
          ELSE IF k \in Range(acc) THEN Try5(ws, dw, sr, dr, o, js, r.p, n, <<>>)
          ELSE Try5(ws, dw, sr, dr, o, js, r.p, n, Append(acc, k))
WithoutRepl5(ws, js, n) ==
  LET o == Order(ws)
      r == Ratios(ws, n)
      sr == [k \in 1..Len(ws) |-> r[o[k]]]
  IN Try5(ws, Digits(ws), sr, Digits(sr), o, js, 1, n, <<>>)

----------------------------------------------------------------------------
(* Unweighted, without replacement: from a pool whose last item takes the  *)
(* place of the one picked.                                                *)
RECURSIVE Pool(_, _, _, _, _)
Pool(pool, us, p, n, acc) ==
  IF Len(acc) = n THEN [items |-> acc, used |-> p - 1]
  ELSE IF p > Len(us) THEN Undecided
  ELSE LET m == Len(pool)
           lo == (us[p] * m) \div U
           hi == ((us[p] + 1) * m - 1) \div U
       IN IF lo # hi THEN Undecided
          ELSE Pool([k \in 1..(m - 1) |-> IF k = lo + 1 THEN pool[m] ELSE pool[k]], us, p + 1, n, Append(acc, pool[lo + 1]))
Unweighted(np, us, n) == Pool([k \in 1..np |-> k], us, 1, n, <<>>)

----------------------------------------------------------------------------
\* Which requests for n distinct items can be met (ws = <<>>: unweighted population of np).
\* A request with n * Max = Tot is on the border (certain items) and left open.
Subset(ws, np, n) == n = np \/ (n >= 1 /\ n < np /\ (ws # <<>> => n * Max(ws) < Tot(ws)))
MaxSubset(ws) == Tot(ws) \div Max(ws)
=============================================================================
