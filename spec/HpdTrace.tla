------------------------------ MODULE HpdTrace ------------------------------
(***************************************************************************)
(* Judges recorded highest-density regions.  D: density per unit of the    *)
(* grid scale in 1e-3 of its largest value (rows in 2-D); y: exact log     *)
(* density relative to the mode; x: positions of the grid points in 1e-4   *)
(* of a cell of a linear scale; probabilities in 1e-8.                     *)
(***************************************************************************)
EXTENDS FloatRec, TLC, TraceData, FiniteSets
VARIABLES t, i, st
H == INSTANCE Hpd WITH S <- 100
Q == INSTANCE Hpd WITH S <- 2520
KGt(a, b) == FLt([k |-> b], [k |-> a])
IGt(a, b) == a > b
\* table calls: integer tables and levels, result in 1/2520 (doubled in 1-D, quadrupled in 2-D)
QuadFails(e) == IF e.r # "ok" THEN {"C15:content above a level: call failed"}
  ELSE IF Abs(e.got - (IF e.two THEN Q!Content2(e.z, e.c) ELSE Q!Content(e.z, e.c))) <= (IF e.two THEN 4 * Len(e.z) * Len(e.z[1]) ELSE Len(e.z)) + 1 THEN {}
  ELSE {"C15:content above a level"}
\* crossings of an integer table; -1 stands for zero density (log -inf); positions in 1e-4 of a cell, from 0
CrossFails(e) ==
  LET n == Len(e.z)
      K == H!Crossings(e.z, e.c, IGt)
      P == H!Sorted(K)
      W == 10000
      pos(j) == LET a == e.z[j] b == e.z[j + 1] IN
        IF a = -1 THEN W * j ELSE IF b = -1 THEN W * (j - 1) ELSE W * (j - 1) + (W * (e.c - a)) \div (b - a)
  IN IF e.r # "ok" THEN {"C15:crossings: call failed"}
     ELSE IF Cardinality(K) > e.max THEN (IF e.ok THEN {"C15:too many crossings not reported"} ELSE {})
     ELSE IF ~e.ok THEN {"C15:crossings refused"}
     ELSE IF Len(e.x) # Len(P) THEN {"C15:wrong number of crossings"}
     ELSE IF \A q \in 1..Len(P) : Abs(e.x[q] - pos(P[q])) <= 2 THEN {} ELSE {"C15:crossing misplaced"}
\* a density object
ObjFails(e) == UNION {
  IF e.norm <= 1000 THEN {} ELSE {"C15:normalisation"},
  IF e.lml <= 1000 THEN {} ELSE {"C15:normalisation"},
  IF e.grid THEN {} ELSE {"C15:grid points"},
  IF e.frac <= 1000 THEN {} ELSE {"C15:fraction above a level"}}
Cont(c, l) == IF c.two THEN H!Content2(c.D, l) ELSE H!Content(c.D, l)
Share(c, l) == ((Cont(c, l) \div 1000) * 1000) \div (IF Cont(c, -1) \div 1000 = 0 THEN 1 ELSE Cont(c, -1) \div 1000)
LevelFails(c, s, e) ==
  IF e.r # "ok" THEN (IF ~c.two /\ e.r = "RuntimeError" /\ e.many THEN {} ELSE {"C15:no region found"})
  ELSE UNION {
  IF e.plo <= e.p /\ e.p <= e.phi THEN {} ELSE {"C15:region does not contain the requested probability"},
  IF Share(c, e.R + e.dR + 2) - 30 <= e.p \div 100000 /\ e.p \div 100000 <= Share(c, e.R - e.dR - 2) + 30 THEN {} ELSE {"C15:region does not contain the requested probability"},
  IF e.level THEN {} ELSE {"C15:reported level"},
  IF \A q \in 1..Len(s.h) : /\ s.h[q].p < e.p => e.lr <= s.h[q].lr + 4 * e.tol + 4 * s.h[q].tol + 2
                            /\ s.h[q].p > e.p => e.lr >= s.h[q].lr - 4 * e.tol - 4 * s.h[q].tol - 2
     THEN {} ELSE {"C15:larger probability with a higher level"},
  IF e.hist = Len(s.h) + 1 THEN {} ELSE {"C15:recorded results"},
  IF e.twin <= 4 * e.tol + 2 /\ e.shift <= 4 * e.tol + 2 THEN {} ELSE {"C15:depends on the normalisation or the implementation"},
  IF c.two THEN {} ELSE
    LET K == H!Crossings(c.y, e.lk, KGt) P == H!Sorted(K) IN
    IF Len(e.b) # Len(P) THEN {"C15:wrong number of boundaries"}
    ELSE IF \A q \in 1..Len(P) : e.b[q].d[P[q]] <= 1000
         THEN {} ELSE {"C15:boundary misplaced"},
  IF c.two THEN {} ELSE IF \A q \in 1..Len(e.b) - 1 : FLe([k |-> e.b[q].k], [k |-> e.b[q + 1].k]) THEN {} ELSE {"C15:boundaries out of order"}}
HInit(c) == [h |-> <<>>]
HJudge(c, s, e) == CASE e.op = "quad" -> QuadFails(e)
                     [] e.op = "cross" -> CrossFails(e)
                     [] e.op = "new" -> IF e.r = "ok" THEN ObjFails(e) ELSE {"C15:density refused"}
                     [] e.op = "level" -> LevelFails(c, s, e)
                     [] e.op = "err" -> IF e.r = e.want THEN {} ELSE {"C15:misuse not refused: " \o e.what}
                     [] e.op = "help" -> IF e.d <= 1000 THEN {} ELSE {"C15:normal-distribution helper " \o e.what}
HAfter(c, s, e) == IF e.op = "level" /\ e.r = "ok" THEN [h |-> Append(s.h, [p |-> e.p, lr |-> e.lr, tol |-> e.tol])] ELSE s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- HInit, TJudge <- HJudge, TAfter <- HAfter
=============================================================================
