------------------------------ MODULE CubTrace ------------------------------
(***************************************************************************)
(* Judges uses of the two-dimensional rules.  On regions with integer      *)
(* bounds the exact integrals are calculated here; "d" fields are          *)
(* differences in units of 1e-13 of the magnitude of the terms summed.     *)
(***************************************************************************)
EXTENDS CubMath, TLC, TraceData
VARIABLES t, i, st
Tol == 20
Points == [c2_1_4 |-> 4, c2_3_4 |-> 4, c2_7_12 |-> 12, e2r2_3_4a |-> 4, e2r2_9_21 |-> 21, e2r2_11_28a |-> 28, e2r2_7_12 |-> 12,
           e2_r2_3_4b |-> 4, e2r2_13_36 |-> 36, e2r2_5_9b |-> 9, e2r2_5_9a |-> 9, e2r2_13_41 |-> 41, e2r2_9_19a |-> 19, e2r2_11_28c |-> 28]
Exact(c, m, n) ==
  IF c.kind \in {"sq", "rect"} THEN Mom(c.g[1], c.g[2], m) * Mom(c.g[3], c.g[4], n)
  ELSE IF c.kind = "e2" THEN Norm(m) * Norm(n)
  ELSE NMom(c.g[1], c.g[2], m) * NMom(c.g[3], c.g[4], n)
If(b, x) == IF b THEN {x} ELSE {}
CInit(c) == [n |-> 0]
CJudge(c, s, e) ==
  CASE e.op = "make" -> {"C22:rule refused"}
    [] e.op = "pts" -> UNION {If(e.r # "ok", "C22:rule raised"), If(e.n # Points[c.rule], "C22:number of evaluations"),
                              If(e.distinct # e.n, "C22:point evaluated twice"),
                              If(IF c.rule = "c2_1_4" THEN ~e.edge ELSE ~e.inside, "C22:point outside its region")}
    [] e.op = "wts" -> UNION {If(e.r # "ok", "C22:rule raised"), If(~e.pos, "C22:weight not positive"),
                              If(e.lin > Tol \/ e.tot > Tol, "C22:not the weighted sum of the values")}
    [] e.op = "mom" -> UNION {If(e.r # "ok", "C22:rule raised"), If(e.q # Exact(c, e.m, e.n) \/ e.d > Tol, "C22:monomial not integrated exactly")}
    [] e.op = "momf" -> UNION {If(e.r # "ok", "C22:rule raised"), If(e.d > Tol, "C22:monomial not integrated exactly")}
    [] e.op = "part" -> If(~e.ok \/ e.d > Tol, "C22:parts do not add up to the whole")
    [] e.op = "bad" -> If(~e.ok, "C22:malformed location or scale accepted")
    [] e.op = "obj" -> If(~e.ok, "C22:nodes reported are not those evaluated")
    [] e.op = "same" -> UNION {If(~e.ok, "C22:second use differs"), If(~e.tab, "C22:rule tables modified")}
CAfter(c, s, e) == s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- CInit, TJudge <- CJudge, TAfter <- CAfter
=============================================================================
