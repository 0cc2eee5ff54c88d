----------------------------- MODULE GridTrace -----------------------------
(***************************************************************************)
(* Judges recorded grids.  A point is [k: exact abscissa, X: position in   *)
(* 1e-5 of the base, u: position on the grid's own (lin or log) scale in   *)
(* 2.5e-9 of the base, v: exact value, f: exact function value there,      *)
(* V: value in 1e-3 of the largest one, w: error of the width in units of  *)
(* 1e-3 of the tolerance].  Quadratures carry the code's value in units    *)
(* of the coarse sum (c) and its deviation from the exact sum over the     *)
(* very same points (d, in 1e-3 of the tolerance).                         *)
(***************************************************************************)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
KLt(a, b) == FLt([k |-> a], [k |-> b])
G == INSTANCE GridSpec WITH Lt <- KLt
Vs(P) == [j \in 1..Len(P) |-> P[j].v]
PointFails(c, e) == LET P == e.p n == Len(P) IN UNION {
  IF e.len = n /\ n >= 2 THEN {} ELSE {"C14:wrong number of points"},
  IF P[1].k = c.lo /\ P[n].k = c.hi THEN {} ELSE {"C14:points do not run from end to end"},
  IF \A j \in 1..n - 1 : KLt(P[j].k, P[j + 1].k) THEN {} ELSE {"C14:abscissas do not increase"},
  IF \A j \in 1..n : P[j].v = P[j].f THEN {} ELSE {"C14:value is not the function there"},
  IF \A j \in 1..n : P[j].w <= 1000 THEN {} ELSE {"C14:width is not the distance to the next point"},
  IF e.alt THEN {} ELSE {"C14:ways to read the points disagree"},
  IF e.over = "ValueError" THEN {} ELSE {"C14:point beyond the end accepted"}}
\* quadratures over exactly these points
Xs(P) == [j \in 1..Len(P) |-> P[j].X]
Ws(P) == [j \in 1..Len(P) |-> P[j].V]
QuadFails(e) == LET T == G!Trap2(Xs(e.p), Ws(e.p), Len(e.p)) IN UNION {
  IF e.tr.r = "ok" /\ e.tr.d <= 1000 THEN {} ELSE {"C14:trapezoid integral"},
  IF Abs(e.tr.c - T) <= 3000 * Len(e.p) + 200000 THEN {} ELSE {"C14:trapezoid integral"},
  IF e.lt.r = "ok" /\ e.lt.d <= 1000 THEN {} ELSE {"C14:log trapezoid integral"},
  UNION {IF e.mo[q].r = "ok" /\ e.mo[q].d <= 1000 THEN {} ELSE {"C14:log trapezoid moments"} : q \in 1..Len(e.mo)},
  IF e.lin.r = "ok" /\ e.lin.d <= 1000 THEN {} ELSE {"C14:integral of a linear function"},
  IF \A q \in 1..Len(e.bad) : e.bad[q] = "ValueError" THEN {} ELSE {"C14:wrong component accepted"}}
\* recorded maxima: e.l lists [j (1-based), q (rank measure, micro units), d (deviation of the parameters)]
MaxFails(c, Y, L, ref) == LET K == G!Peaks(Y)
                              S == {L[z].j : z \in 1..Len(L)}
                              big == CHOOSE m \in {ref[k] : k \in K} : \A k \in K : ref[k] <= m
                              out == {k \in K \ S : c.dyn < 0 \/ ref[k] > big - c.dyn + 5}
  IN UNION {
  IF Cardinality(S) = Len(L) THEN {} ELSE {"C14:a peak is recorded twice"},
  IF S \subseteq K THEN {} ELSE {"C14:recorded peak is no local maximum"},
  IF \A z \in 1..Len(L) : L[z].d <= 1000 THEN {} ELSE {"C14:parameters of a peak"},
  IF S \subseteq K /\ (\E z \in 1..Len(L) : Abs(L[z].q - ref[L[z].j]) > 5) THEN {"C14:rank of a peak"} ELSE {},
  IF \A z \in 1..Len(L) - 1 : L[z + 1].q <= L[z].q + 5 THEN {} ELSE {"C14:peaks not in order"},
  IF c.nmax < 0 THEN (IF out = {} THEN {} ELSE {"C14:local maximum not recorded"})
  ELSE IF \A k \in out : Len(L) = c.nmax /\ (\A z \in 1..Len(L) : L[z].q >= ref[k] - 5) THEN {} ELSE {"C14:local maximum not recorded"},
  IF c.nmax >= 0 => Len(L) <= c.nmax THEN {} ELSE {"C14:too many peaks"},
  IF c.dyn >= 0 /\ S \subseteq K /\ (\E k \in S : ref[k] < big - c.dyn - 5) THEN {"C14:peak below the dynamic range"} ELSE {}}
\* after a refinement: no gap wider than the base step, and around each recorded peak the requested density
Gap(P, j) == P[j + 1].u - P[j].u
RefineFails(c, s, e) == LET P == e.p n == Len(P) IN UNION {
  IF \A j \in 1..n - 1 : Gap(P, j) <= c.step + 8 + c.step \div 100000 THEN {} ELSE {"C14:base resolution lost"},
  UNION {LET a == e.rg[z][1] b == e.rg[z][2]
             w == (b - a + 2 * c.step) \div (c.rpts - 1)
         IN IF \A j \in 1..n - 1 : P[j].u < b - 20 /\ P[j + 1].u > a + 20 => Gap(P, j) <= w + 20 + w \div 100000
            THEN {} ELSE {"C14:peak not refined"} : z \in 1..Len(e.rg)},
  IF e.seg.tot = n /\ G!Size(e.seg.n) = n THEN {} ELSE {"C14:pieces do not make up the grid"},
  IF e.rl.on /\ G!Size(e.seg.n) = n
  THEN LET fine == {j \in 1..Len(e.seg.n) : e.seg.fine[j]}
           pk(q, J) == Cardinality({j \in J : q \in G!Peaks(G!Piece(Vs(P), e.seg.n, j))})
           got(q) == Cardinality({z \in 1..Len(e.rl.l) : e.rl.l[z] = q})
           \* pieces at the base step may or may not be sampled again
       IN IF \A q \in 1..n : pk(q, fine) <= got(q) /\ got(q) <= pk(q, 1..Len(e.seg.n)) THEN {} ELSE {"C14:maxima of the refined pieces"}
  ELSE {},
  LET L == e.l O == s.l In(a, B) == \E z \in 1..Len(B) : B[z].j = a.j /\ B[z].q = a.q IN
  IF /\ \A z \in 1..Len(L) : In(L[z], O)
     /\ e.dyn < 0 => Len(L) = Len(O)
     /\ e.dyn >= 0 => \A z \in 1..Len(O) : /\ (O[z].q > O[1].q - e.dyn + 5 => In(O[z], L))
                                               /\ (O[z].q < O[1].q - e.dyn - 5 => ~In(O[z], L))
     /\ Len(L) <= Len(O)
  THEN {} ELSE {"C14:refining changed the recorded peaks"}}
GInit(c) == [p |-> <<>>, l |-> <<>>]
GJudge(c, s, e) ==
  IF e.op = "err" THEN (IF e.r = e.want THEN {} ELSE {"C14:misuse not refused: " \o e.what})
  ELSE IF e.r # "ok" THEN {"C14:call failed"}
  ELSE IF Len(e.p) < 2 THEN {"C14:wrong number of points"}
  ELSE IF e.op = "sub" THEN LET q == s.p IN
     UNION {IF /\ Len(e.p) = e.b - e.a + 1
               /\ \A j \in 1..Len(e.p) : e.p[j].v = q[e.a + j - 1].v /\ Abs(e.p[j].u - q[e.a + j - 1].u) <= 8
               /\ e.p[1].k = q[e.a].k /\ e.p[Len(e.p)].k = q[e.b].k
            THEN {} ELSE {"C14:subgrid is not the part of the grid"}, QuadFails(e)}
  ELSE UNION {PointFails(c, e), QuadFails(e),
    IF e.op = "first" THEN UNION {
         IF Len(e.p) = c.n THEN {} ELSE {"C14:wrong number of points"},
         IF \A j \in 1..Len(e.p) - 1 : Abs(Gap(e.p, j) - c.step) <= 8 THEN {} ELSE {"C14:base points unevenly spaced"},
         IF c.peaks /\ e.pk THEN MaxFails(c, Vs(e.p), e.l, e.ref) ELSE {}}
    ELSE IF e.op = "refine" THEN RefineFails(c, s, e)
    ELSE IF e.op = "again" THEN (IF e.p = s.p THEN {} ELSE {"C14:reading the grid changed it"}) ELSE {}}
GAfter(c, s, e) == IF e.op \in {"err", "sub"} THEN s ELSE [p |-> e.p, l |-> IF e.op = "again" THEN s.l ELSE e.l]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- GInit, TJudge <- GJudge, TAfter <- GAfter
=============================================================================
