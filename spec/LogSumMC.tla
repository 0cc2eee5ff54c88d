------------------------------ MODULE LogSumMC ------------------------------
(***************************************************************************)
(* Running sum kept as the logarithm.  Values are powers of 2: exponents.  *)
(* The design keeps <<largest exponent, sum relative to it>> exactly, as   *)
(* the code does with logs; Cut is the ratio beyond which a value is       *)
(* dropped (2^-Cut relative), so the result is right up to n * 2^-Cut.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxE, Cut, Emit
VARIABLES h, m, q, n
\* running sum = q * 2^(m - U), kept with U fractional bits
U == MaxE
Pow(k) == 2 ^ k
Init == h = <<>> /\ m = -1 /\ q = 0 /\ n = 0
Add(e) == /\ h' = Append(h, e) /\ n' = n + 1
          /\ IF m = -1 THEN m' = e /\ q' = Pow(U)
             ELSE IF m >= e THEN m' = m /\ q' = (IF m - e < Cut THEN q + Pow(U + e - m) ELSE q)
             ELSE m' = e /\ q' = (IF e - m < Cut THEN Pow(U) + q \div Pow(e - m) ELSE Pow(U))
Zero == /\ h' = Append(h, -1) /\ n' = n + 1 /\ UNCHANGED <<m, q>>
Next == Len(h) < MaxLen /\ (Zero \/ \E e \in 0..MaxE : Add(e))
Spec == Init /\ [][Next]_<<h, m, q, n>>
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF h[k] >= 0 THEN Pow(h[k]) ELSE 0)
\* the kept sum equals the true sum up to the dropped terms and halvings, whatever the order
Exact == m >= 0 => LET T == Sum(Len(h)) IN q * Pow(m) <= T * Pow(U) /\ (T * Pow(U) - q * Pow(m)) <= Len(h) * Pow(m) * (1 + Pow(IF U > Cut THEN U - Cut ELSE 0))
Count == n = Len(h)
Refuses == (m = -1) = (\A k \in 1..Len(h) : h[k] = -1)
EmitC == (Emit /\ Len(h) = MaxLen) => PrintT("@@BEH " \o ToJson(h))
=============================================================================
