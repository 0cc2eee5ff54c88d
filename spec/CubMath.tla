------------------------------ MODULE CubMath ------------------------------
(***************************************************************************)
(* Exact integrals of monomials, as integers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
\* (m + 1) times the integral of x^m from a to b
Mom(a, b, m) == Pow(b, m + 1) - Pow(a, m + 1)
\* (m - 1)!! for even m, 0 for odd m: E z^m of a standard normal variable
RECURSIVE Norm(_)
Norm(m) == IF m = 0 THEN 1 ELSE IF m = 1 THEN 0 ELSE (m - 1) * Norm(m - 2)
RECURSIVE Bin(_, _)
Bin(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Bin(n - 1, k - 1) + Bin(n - 1, k)
\* E (l + s z)^m
RECURSIVE NSum(_, _, _, _)
NSum(l, s, m, k) == IF k > m THEN 0 ELSE Bin(m, k) * Pow(l, m - k) * Pow(s, k) * Norm(k) + NSum(l, s, m, k + 1)
NMom(l, s, m) == NSum(l, s, m, 0)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdSeq(Tail(q))
=============================================================================
