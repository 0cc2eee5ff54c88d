------------------------------- MODULE OnOff -------------------------------
(***************************************************************************)
(* On/off counting: non counts in t_on, noff counts in t_off = (p/q) t_on. *)
(* W(d, i) is the (integer, common factor q^non) weight of i of the on     *)
(* counts being signal, marginalised over the background rate; T(d, k) the *)
(* k-th term of the signal likelihood series at s (t_on + t_off) = a/b.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Pow(_, _), Prod(_, _), SumTo(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Prod(a, b) == IF a > b THEN 1 ELSE b * Prod(a, b - 1)          \* a (a+1) ... b
Binom(n, k) == Prod(n - k + 1, n) \div Prod(1, k)
SumTo(f, n) == IF n < 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
W(d, i) == Pow(d.p + d.q, i) * Pow(d.q, d.non - i) * Prod(d.non - i + 1, d.non - i + d.noff)
Weights(d) == [i \in 0..d.non |-> W(d, i)]
Total(d) == SumTo(Weights(d), d.non)
\* the most probable number of signal counts
Trunc0(n, m) == IF n < 0 THEN 0 ELSE n \div m
Mode(d) == LET m == Trunc0((d.non + 1) * d.p - d.noff * d.q, d.p) IN IF m > d.non THEN d.non ELSE m
T(d, a, b, k) == Pow(a, k) * Pow(b, d.non - k) * Binom(d.non, k) * Prod(1, d.non + d.noff - k)
\* w/tot in millionths, by long division (w <= tot)
RECURSIVE Digits(_, _, _)
Digits(r, tot, n) == IF n = 0 THEN 0 ELSE LET x == r * 10 IN (x \div tot) * Pow(10, n - 1) + Digits(x % tot, tot, n - 1)
Micro(w, tot) == IF w = tot THEN 1000000 ELSE Digits(w, tot, 6)
=============================================================================
