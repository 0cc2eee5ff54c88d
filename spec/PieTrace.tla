------------------------------ MODULE PieTrace ------------------------------
(* Judges recorded executions of the parameter bookkeeping against Pie.    *)
EXTENDS Pie, TraceData
VARIABLES t, i, st

\* State: the objects, the snapshots taken, the scores seen, the listeners.
PInit(c) == [o |-> [j \in 1..c.nobj |-> NewObj({c.names[q] : q \in 1..Len(c.names)})],
             sn |-> <<>>, memo |-> {}, lis |-> {}]

Near(x, v) == IF x.k[1] # -2 THEN x.k = v.k
              ELSE IF x.s = 9 THEN ~Sat(v.m) /\ Abs(x.m - v.m) <= 4
              ELSE v.s = x.s /\ Abs(x.l - v.l) <= 5

Vals(O) == [x \in DOMAIN O.p |-> O.p[x].v]

SnapW(s, e) == s.sn[e.sn]
Do(c, s, e) ==
  LET O == s.o[e.o]
      e2 == IF e.op = "restore" THEN e @@ [w |-> SnapW(s, e)] ELSE e
  IN IF e.op \in {"score", "fit", "sim"} THEN Ok(TouchAll(O, c.names, c.df))
     ELSE IF e.op \in {"addlis", "dellis"} THEN Ok(Touch(O, e.p, c.df))
     ELSE Apply(c, O, e2)

StatusOps == {"assign","fix","freeze","vary","linstep","logstep"}
OutcomeTag(op) ==
  CASE op \in {"next","reset","nums","pfirst","plast"} -> "C03"
    [] op \in {"pnext","pprev","linstep","logstep"} -> "C02+C03"
    [] op \in {"snap"} -> "C08"
    [] op \in {"restore"} -> "C02+C08"
    [] op \in {"score","fit","sim"} -> "C05+C08"
    [] op \in {"addlis","dellis"} -> "C05"
    [] OTHER -> "C02"

\* Clauses comparing one object with what it should be; rej = the call was rejected.
Tag(base, rej, op) == IF rej THEN (IF op = "restore" THEN "C02+C08+" \o base ELSE "C02+" \o base)
                      ELSE IF op = "restore" THEN "C08+" \o base ELSE base
ObjFails(x, b, rej, op) ==
  LET seen == {z \in DOMAIN x.p : x.p[z].st # "undef"}
      obs == {b.seen[j] : j \in 1..Len(b.seen)}
  IN UNION {
      IF x.fx = b.fx /\ x.sp = b.sp /\ x.vy = b.vy THEN {} ELSE {Tag("C01", rej, op) \o ":lists"},
      IF seen = obs THEN {} ELSE {Tag("C01", rej, op) \o ":used-parameters"},
      UNION { LET q == x.p[z]  w == b.p[z] IN UNION {
          IF q.st = w.st THEN {} ELSE {Tag("C01", rej, op) \o ":status of " \o z},
          IF Near(q.v, w.v) /\ w.gv.k = w.v.k THEN {}
          ELSE {Tag(IF q.st = "stepping" THEN "C03" ELSE "C02", rej, op) \o ":value of " \o z},
          IF q.bd = w.bd /\ q.lo.k = w.lo.k /\ q.hi.k = w.hi.k THEN {} ELSE {Tag("C02", rej, op) \o ":range of " \o z},
          IF q.dl.k[1] = -2 \/ q.dl.k = w.dl.k THEN {} ELSE {Tag("C02", rej, op) \o ":scale of " \o z},
          IF q.st # "stepping" THEN {}
          ELSE UNION {
            IF q.slo.k = w.slo.k /\ q.shi.k = w.shi.k /\ q.n = w.n /\ q.ty = w.ty THEN {}
            ELSE {Tag("C02+C03", rej, op) \o ":step grid of " \o z},
            IF q.ix = w.ix THEN {} ELSE {Tag("C03", rej, op) \o ":step index of " \o z}}
        } : z \in seen \cap obs }
     }

\* Hooks (C05).  Walk through the recorded hook calls of the event: a model
\* evaluation must see exactly the parameter values the last use hook saw, with no
\* change in between.
RECURSIVE HookWalk(_, _, _)
HookWalk(h, j, dirty) ==
  IF j > Len(h) THEN {}
  ELSE LET x == h[j] IN
    CASE x.h = "chg" -> HookWalk(h, j + 1, TRUE)
      [] x.h = "use" -> HookWalk(h, j + 1, FALSE)
      [] x.h = "sig" -> (IF dirty THEN {"C05:model evaluated without use hook after the last change"} ELSE {})
                        \cup HookWalk(h, j + 1, dirty)
      [] OTHER -> HookWalk(h, j + 1, dirty)

LastSame(h, z, o) == \* index of the last change call for parameter z, 0 if none
  LET J == {j \in 1..Len(h) : h[j].h = "chg" /\ h[j].p = z /\ h[j].o = o}
  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A q \in J : q <= j

HookFails(c, s, e, x0, x1) ==
  IF c.hooks = 0 THEN {}
  ELSE LET h == e.hk
           chg == {z \in DOMAIN e.obs[e.o].p : x0.p[z].v.k # e.obs[e.o].p[z].v.k}
           lis == {j \in 1..Len(h) : h[j].h = "lis"}
           fitlike == e.op = "fit"
       IN UNION {
         HookWalk(h, 1, TRUE),
         IF \E j \in 1..Len(h) : h[j].h # "lis" /\ h[j].o # e.o THEN {"C05:hook of another object called"} ELSE {},
         UNION { LET j == LastSame(h, z, e.o) IN
                 IF j = 0 THEN {"C05:no change hook for " \o z}
                 ELSE IF h[j].v.k # e.obs[e.o].p[z].v.k THEN {"C05:change hook saw a stale value of " \o z}
                 ELSE {} : z \in chg },
         \* A use hook sees current values.
         UNION { IF h[j].h = "use" \/ h[j].h = "sig"
                 THEN IF fitlike \/ \A z \in DOMAIN h[j].vals : h[j].vals[z].k = e.obs[e.o].p[z].v.k
                      THEN {} ELSE {"C05:hook saw stale values"}
                 ELSE {} : j \in 1..Len(h) },
         IF e.op \in {"score", "sim", "fit"} /\ e.r = "ok"
            /\ ~\E j \in 1..Len(h) : h[j].h = "sig" THEN {"C05:evaluation did not use the model"} ELSE {},
         \* Listeners: told of a change iff registered for that parameter.
         UNION { IF \E j \in lis : h[j].p = z /\ h[j].o = k THEN {} ELSE {"C05:registered listener not told"}
                 : <<k, o, z>> \in {w \in s.lis : w[2] = e.o /\ w[3] \in chg} },
         UNION { IF <<h[j].o, e.o, h[j].p>> \in s.lis THEN {} ELSE {"C05:unregistered listener told"} : j \in lis }
       }

ScoreFails(c, s, e, x1) ==
  IF e.op # "score" THEN {}
  ELSE IF e.r # "ok" THEN {}
  ELSE LET vals == Vals(s.o[e.o]) IN
       IF \E w \in s.memo : w.o = e.o /\ w.v = [z \in DOMAIN x1.p |-> x1.p[z].v] /\ w.r # e.ret.k
       THEN {"C08+C05:same parameter values gave another score"} ELSE {}

PJudge(c, s, e) ==
  LET d == Do(c, s, e)
      rej == d.r = "err"
      \* an error out of the hooks themselves
      hooked == c.hooks = 1 /\ e.r = "err" /\ (e.op = "get" \/ e.exc = "RecursionError")
      outcome == IF e.r = d.r THEN {} ELSE {OutcomeTag(e.op) \o (IF hooked THEN "+C05" ELSE "") \o ":outcome of " \o e.op \o " should be " \o d.r}
  IN IF e.op \in {"fit"} THEN
       outcome \cup HookFails(c, s, e, s.o[e.o], d.s)
     ELSE UNION {
       outcome,
       UNION { ObjFails(IF j = e.o THEN d.s ELSE s.o[j], e.obs[j], IF j = e.o THEN rej ELSE FALSE,
                        IF j = e.o THEN e.op ELSE "isolation") : j \in 1..c.nobj },
       UNION { IF ObjFails(s.o[j], e.obs[j], FALSE, "x") = {} THEN {} ELSE {"C01+C02+C05:other object changed"}
               : j \in (1..c.nobj) \ {e.o} },
       IF e.op = "nums" /\ e.r = "ok" /\ (e.ret.nums # StepNums(d.s) \/ e.ret.shape # StepShape(d.s))
       THEN {"C03:reported indices or shape"} ELSE {},
       \* snapshots
       IF e.op = "snap" /\ e.r = "ok" THEN
         UNION { IF e.ret.names = c.names /\ e.ret.docs = c.docs THEN {} ELSE {"C08:snapshot names or docs"},
                 IF Len(e.sobs) = Len(s.sn) + 1
                    /\ \A z \in DOMAIN d.s.p : z \in DOMAIN e.sobs[Len(s.sn) + 1]
                                               /\ e.sobs[Len(s.sn) + 1][z].k = e.obs[e.o].p[z].v.k
                 THEN {} ELSE {"C08:snapshot values"} }
       ELSE {},
       UNION { IF \A z \in DOMAIN s.sn[j] : z \in DOMAIN e.sobs[j] /\ e.sobs[j][z].k = s.sn[j][z].k
               THEN {} ELSE {"C08:earlier snapshot changed"} : j \in 1..Len(s.sn) },
       HookFails(c, s, e, s.o[e.o], d.s),
       ScoreFails(c, s, e, d.s)
     }

\* Approximately known values become the observed ones.
Adopt(x, b) == [x EXCEPT !.p = [z \in DOMAIN x.p |->
   IF x.p[z].st = "undef" THEN x.p[z]
   ELSE [x.p[z] EXCEPT !.v = IF x.p[z].v.k[1] = -2 THEN b.p[z].v ELSE x.p[z].v,
                       !.dl = IF x.p[z].dl.k[1] = -2 THEN b.p[z].dl ELSE x.p[z].dl]]]
AdoptAll(x, b) == [x EXCEPT !.p = [z \in DOMAIN x.p |-> [x.p[z] EXCEPT !.v = b.p[z].v]]]

PAfter(c, s, e) ==
  LET d == Do(c, s, e)
      O1 == IF e.op = "fit" THEN AdoptAll(d.s, e.obs[e.o]) ELSE Adopt(d.s, e.obs[e.o])
      s1 == [s EXCEPT !.o[e.o] = O1]
  IN CASE e.op = "snap" -> [s1 EXCEPT !.sn = Append(s.sn, [z \in DOMAIN O1.p |-> O1.p[z].v])]
       [] e.op = "score" -> [s1 EXCEPT !.memo = s.memo \cup {[o |-> e.o, v |-> Vals(O1), r |-> e.ret.k]}]
       [] e.op = "sim" -> [s1 EXCEPT !.memo = {w \in s.memo : w.o # e.o}]
       [] e.op = "addlis" -> [s1 EXCEPT !.lis = s.lis \cup {<<e.k, e.o, e.p>>}]
       [] e.op = "dellis" -> [s1 EXCEPT !.lis = s.lis \ {<<e.k, e.o, e.p>>}]
       [] OTHER -> s1

INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- PInit, TJudge <- PJudge, TAfter <- PAfter
=============================================================================
