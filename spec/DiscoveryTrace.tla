--------------------------- MODULE DiscoveryTrace ---------------------------
(* Judges recorded class definitions and what inference objects report.    *)
EXTENDS Discovery, TraceData
VARIABLES t, i, st
DInit(c) == <<>>
DAfter(c, s, e) == Append(s, e.cls)
RepFails(cs, k, r, who) ==
  LET m == Report(cs, k)
      pd == ParDecls(cs, k)
  IN IF r.ok # m.ok THEN {"C07:" \o who \o IF m.ok THEN " rejected" ELSE " accepted a duplicated parameter"}
     ELSE IF ~m.ok THEN {}
     ELSE UNION {
       IF r.params = m.params THEN {} ELSE {"C07:" \o who \o " parameters"},
       IF r.preds = m.preds THEN {} ELSE {"C07:" \o who \o " predictors"},
       IF r.params # m.params \/ (\A j \in 1..Len(pd) : r.defs[j] = pd[j].v /\ r.docs[j] = pd[j].doc) THEN {}
       ELSE {"C07:" \o who \o " defaults or docs"},
       IF r.fx = m.params \/ r.params # m.params THEN {} ELSE {"C07:" \o who \o " parameters in use"},
       IF r.scored = m.preds THEN {} ELSE {"C07:" \o who \o " predictors scored"}}
DJudge(c, s, e) ==
  LET cs == Append(s, e.cls)
      inf == InfIdx(cs)
  IN UNION {
      IF "err" \notin DOMAIN e /\ Len(e.rep) = Len(inf) THEN {} ELSE {"C07:class could not be defined"},
      UNION {RepFails(cs, inf[j], e.rep[j], "new object") : j \in 1..Len(e.rep)},
      UNION {RepFails(cs, inf[j], e.old[j], "earlier object") : j \in 1..Len(e.old)}}
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- DInit, TJudge <- DJudge, TAfter <- DAfter
=============================================================================
