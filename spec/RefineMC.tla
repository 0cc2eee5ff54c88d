------------------------------ MODULE RefineMC ------------------------------
(***************************************************************************)
(* The refinement algorithm of the interval list, in exact arithmetic, for *)
(* every sequence of refinements with ends on a half-integer lattice.      *)
(***************************************************************************)
EXTENDS Rational, TLC, Json, FiniteSets
CONSTANTS Width, BaseN, Ends, Pts, MaxOps, Emit
VARIABLES L, P, last, hist
vars == <<L, P, last, hist>>
QWide(x, y) == QLt(y, x)
T == INSTANCE Tiling WITH Lt <- QLt, Le <- QLe, Add <- QAdd, Sub <- QSub, DivN <- QDivN, Wide <- QWide
Mk(a, b, n) == [a |-> a, b |-> b, s |-> QDivN(QSub(b, a), n - 1), n |-> n]
NumPts(a, b, s) == QCeil(QSub(b, a), s) + 1
Locate(I, x) == IF ~QLt(x, I.b) THEN <<I.b, I.b>>
                ELSE LET i == QFloor(QSub(x, I.a), I.s) l == QAdd(I.a, QMulN(I.s, i)) IN <<l, QAdd(l, I.s)>>
Lo0 == <<0, 1>>
Hi0 == <<Width, 1>>
RECURSIVE Merge(_, _)
Merge(l, i) == IF i >= Len(l) THEN l
               ELSE IF l[i].s = l[i + 1].s
                    THEN Merge(SubSeq(l, 1, i - 1) \o <<Mk(l[i].a, l[i + 1].b, l[i].n + l[i + 1].n - 1)>> \o SubSeq(l, i + 2, Len(l)), i)
                    ELSE Merge(l, i + 1)
Part(a, b, s) == IF QLt(a, b) THEN <<Mk(a, b, NumPts(a, b, s))>> ELSE <<>>
Upd(l, lo0, hi0, n0) ==
  LET lo1 == QMax(lo0, Lo0) hi1 == QMin(hi0, Hi0) IN
  IF ~QLt(lo1, hi1) THEN [ok |-> FALSE, l |-> l]
  ELSE LET jl == CHOOSE j \in 1..Len(l) : ~QLt(lo1, l[j].a) /\ QLt(lo1, l[j].b)
           jh == CHOOSE j \in 1..Len(l) : QLt(l[j].a, hi1) /\ ~QLt(l[j].b, hi1)
           s0 == QDivN(QSub(hi1, lo1), n0 - 1)
           lo == Locate(l[jl], lo1)[1]
           ph == Locate(l[jh], hi1)
           hi == IF hi1 = ph[1] THEN hi1 ELSE ph[2]
           n == IF QLt(l[jl].s, QMulN(s0, 5)) THEN NumPts(lo, hi, s0) ELSE n0
           s == QDivN(QSub(hi, lo), n - 1)
           pre == SubSeq(l, 1, jl - 1)
           post == SubSeq(l, jh + 1, Len(l))
       IN IF jl = jh
          THEN IF QLe(l[jl].s, s) THEN [ok |-> TRUE, l |-> l]
               ELSE [ok |-> TRUE, l |-> Merge(pre \o Part(l[jl].a, lo, l[jl].s) \o <<Mk(lo, hi, n)>> \o Part(hi, l[jl].b, l[jl].s) \o post, 1)]
          ELSE LET left == IF QLt(s, l[jl].s) THEN Part(l[jl].a, lo, l[jl].s) \o Part(lo, l[jl].b, s) ELSE <<l[jl]>>
                   right == IF QLt(s, l[jh].s) THEN Part(l[jh].a, hi, s) \o Part(hi, l[jh].b, l[jh].s) ELSE <<l[jh]>>
                   mid == [j \in 1..(jh - jl - 1) |-> IF QLt(s, l[jl + j].s) THEN Part(l[jl + j].a, l[jl + j].b, s)[1] ELSE l[jl + j]]
               IN [ok |-> TRUE, l |-> Merge(pre \o left \o mid \o right \o post, 1)]
Init == \E n \in BaseN : L = <<Mk(Lo0, Hi0, n)>> /\ P = L /\ last = <<>> /\ hist = <<<<n>>>>
Next == /\ Len(hist) <= MaxOps
        /\ \E a, b \in Ends : \E n \in Pts :
             /\ a < b \/ (a = b /\ n = 2)
             /\ LET r == Upd(L, <<a - 2, 2>>, <<b - 2, 2>>, n)
                IN L' = r.l /\ P' = L /\ last' = [lo |-> QMax(<<a - 2, 2>>, Lo0), hi |-> QMin(<<b - 2, 2>>, Hi0), n |-> n, ok |-> r.ok]
             /\ hist' = Append(hist, <<a, b, n>>)
        /\ (Emit /\ Len(hist') = MaxOps + 1 => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Good == /\ T!Tiles(L, Lo0, Hi0)
        /\ last # <<>> =>
           /\ T!NeverCoarser(P, L)
           /\ ~last.ok => L = P
           /\ last.ok => /\ T!Dense(P, L, last.lo, last.hi, last.n)
                         /\ T!CoarserKeeps(P, L, last.lo, last.hi, last.n)
                         /\ T!OutsideKept(P, L, last.lo, last.hi)
=============================================================================
