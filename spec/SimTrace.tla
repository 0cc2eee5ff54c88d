----------------------------- MODULE SimTrace -----------------------------
(* Judges recorded simulations of data against SimData.                    *)
EXTENDS SimData, FloatRec, TLC, TraceData
VARIABLES t, i, st
SInit(c) == [o \in 1..c.nobj |-> c.orig]
Strip(q) == [j \in 1..Len(q) |-> [x |-> q[j].x, s |-> q[j].s, v |-> q[j].v]]
Result(s, e) == IF e.op = "decl" THEN [ok |-> Declarable(e.lens, e.rank), d |-> s[e.o][e.p], new |-> {}]
                ELSE IF e.op \in {"param", "poke"} THEN [ok |-> TRUE, d |-> s[e.o][e.p], new |-> {}]
                ELSE Do(s[e.o][e.p], e.op, e.k, e.xs, e.ss)
XS(d) == [j \in 1..Len(d) |-> <<d[j].x, d[j].s>>]
\* the working data are consistent, at the right places, unsimulated values untouched
DataFails(want, new, got, who) ==
  IF \E k \in 1..4 : got.len[k] # Len(want) THEN {"C06:" \o who \o ": number of data"}
  ELSE UNION {
    IF XS(got.d) = XS(want) THEN {} ELSE {"C06:" \o who \o ": locations or uncertainties"},
    IF \A j \in 1..Len(want) : j \in new \/ got.d[j].v = want[j].v THEN {} ELSE {"C06:" \o who \o ": value changed"},
    IF \A j \in new : Abs(got.d[j].z) <= 6000 /\ got.d[j].nz THEN {} ELSE {"C06:" \o who \o ": simulated value is not prediction plus noise"},
    \* independent noise: no two data get the same
    IF \A j, k \in new : j < k => Abs(got.d[j].y - got.d[k].y) > 2 THEN {} ELSE {"C06:" \o who \o ": data share their noise"}}
SJudge(c, s, e) ==
  IF e.op = "summary" THEN \* mean squared standardised noise
    IF e.n < 200 \/ (e.sumsq * 10 > e.n * 8 * 1000 /\ e.sumsq * 10 < e.n * 12 * 1000) THEN {} ELSE {"C06:noise has the wrong size"}
  ELSE LET r == Result(s, e) IN UNION {
    IF e.r = (IF r.ok THEN "ok" ELSE "err") THEN {} ELSE {"C06:operation " \o (IF r.ok THEN "rejected" ELSE "accepted")},
    UNION {UNION {DataFails(IF o = e.o /\ p = e.p THEN r.d ELSE s[o][p], IF o = e.o /\ p = e.p THEN r.new ELSE {},
                            e.obs[o][p], IF o = e.o /\ p = e.p THEN "simulated data" ELSE "data of another")
                  : p \in 1..Len(c.orig)} : o \in 1..c.nobj},
    IF e.obs2 = e.obs THEN {} ELSE {"C06:scoring changed the data"},
    UNION {DataFails(c.orig[p], {}, e.fresh[p], "data of a new object") : p \in 1..Len(c.orig)},
    IF \A o \in 1..c.nobj : e.sc[o].ok /\ Abs(e.sc[o].sc.m - e.sc[o].ind.m) <= 20 THEN {} ELSE {"C06:score does not belong to the data"},
    IF e.chg = 0 THEN {} ELSE {"C06:caller's arrays changed"}}
SAfter(c, s, e) ==
  IF e.op = "summary" THEN s
  ELSE [o \in 1..c.nobj |-> [p \in 1..Len(c.orig) |-> Strip(e.obs[o][p].d)]]
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- SInit, TJudge <- SJudge, TAfter <- SAfter
=============================================================================
