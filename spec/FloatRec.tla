------------------------------ MODULE FloatRec ------------------------------
(***************************************************************************)
(* Recorded IEEE doubles.  A float is recorded as                          *)
(*   k : three 21/22-bit limbs of its order-preserving 64-bit image, so    *)
(*       equality and order of doubles are decided exactly;                *)
(*   m : its value in micro-units (rounded; saturated at +-2*10^9);        *)
(*   l : the natural log of its magnitude in micro-units;                  *)
(*   s : its sign.                                                         *)
(* k[1] = -1 marks "no value", k[1] = -2 a value known only approximately. *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoF == [k |-> <<-1,-1,-1>>, m |-> 0, l |-> 0, s |-> 0]
IsF(a) == a.k[1] # -1
FEq(a, b) == a.k = b.k
FLt(a, b) == \/ a.k[1] < b.k[1]
             \/ a.k[1] = b.k[1] /\ a.k[2] < b.k[2]
             \/ a.k[1] = b.k[1] /\ a.k[2] = b.k[2] /\ a.k[3] < b.k[3]
FLe(a, b) == FEq(a, b) \/ FLt(a, b)
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
Abs(x) == IF x < 0 THEN -x ELSE x
Sat(x) == Abs(x) >= 2000000000

\* i/(d) of the way from integer a to integer b without leaving 32 bits.
Frac(a, b, i, d) == LET df == b - a
                        q == df \div d
                        r == df % d
                    IN a + i * q + (i * r) \div d

\* Small integers as recorded floats, for the design models.
FI(n) == [k |-> <<1000, 0, 1000 + n>>, m |-> 1000000 * n, l |-> 0,
          s |-> IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1]
=============================================================================
