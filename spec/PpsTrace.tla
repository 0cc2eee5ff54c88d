------------------------------ MODULE PpsTrace ------------------------------
(* Judges recorded samples against Pps.  Every request carries the stream  *)
(* of numbers NumPy's generator had ahead of it.                           *)
EXTENDS Pps, TLC, TraceData
VARIABLES t, i, st
Expected(c, e) ==
  CASE e.op = "sample" -> WithRepl(c.ws, e.js, e.n)
    [] e.n = c.np -> [items |-> [k \in 1..c.np |-> k], used |-> 0]
    [] c.ws = <<>> -> Unweighted(c.np, e.us, e.n)
    [] e.op = "pps" -> WithoutRepl(c.ws, e.us, e.n)
    [] OTHER -> WithoutRepl5(c.ws, e.js, e.n)
\* numbers of 32 bits per number of the stream
Words(c, e) == IF (e.op = "pps5" /\ c.ws # <<>>) \/ e.op = "sample" THEN 1 ELSE 2
Fits(c, e) == IF e.op = "sample" THEN e.n >= 1 /\ c.ws # <<>> ELSE Subset(c.ws, c.np, e.n)
Exact(c, e) == e.op = "sample" \/ c.ws = <<>> \/ e.n = c.np \/ Distinct(c.ws)
Fails(c, e) ==
  IF e.op = "declare" THEN IF (e.r = "ok") = (e.n = Len(c.ws)) THEN {} ELSE {"C27:items and weights of different number accepted"}
  ELSE IF e.op = "max" THEN IF e.r = "ok" /\ e.v = MaxSubset(c.ws) THEN {} ELSE {"C27:largest sample size"}
  ELSE IF e.r = "hang" THEN {"C27:does not finish"}
  ELSE IF ~Fits(c, e) THEN UNION {
    IF e.r = "err" THEN {} ELSE {"C27:impossible request accepted"},
    IF e.used = 0 THEN {} ELSE {"C27:rejected request used random numbers"}}
  ELSE IF e.r # "ok" THEN {"C27:possible request rejected"}
  ELSE UNION {
    IF Len(e.items) = e.n THEN {} ELSE {"C27:number of items"},
    IF \A k \in 1..Len(e.items) : e.items[k] \in 1..c.np /\ (c.ws # <<>> /\ (e.op = "sample" \/ e.n # c.np) => c.ws[e.items[k]] > 0) THEN {} ELSE {"C27:item that cannot be selected"},
    IF e.op = "sample" \/ Cardinality(Range(e.items)) = Len(e.items) THEN {} ELSE {"C27:item selected twice"},
    IF e.used < 0 THEN {"C27:random state is not an advanced one"} ELSE {},
    IF ~Exact(c, e) THEN {} ELSE
      LET x == Expected(c, e) IN
      IF x.used = -1 THEN {} ELSE UNION {
        IF e.items = x.items THEN {} ELSE {"C27:items are not those the random numbers select"},
        IF e.used = x.used * Words(c, e) THEN {} ELSE {"C27:random numbers used"}}}
PJudge(c, s, e) == UNION {Fails(c, e), IF e.kept THEN {} ELSE {"C27:population or cached normal changed"}}
PInit(c) == 0
PAfter(c, s, e) == s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- PInit, TJudge <- PJudge, TAfter <- PAfter
=============================================================================
