----------------------------- MODULE OnOffTrace -----------------------------
(***************************************************************************)
(* Judges recorded query histories on on/off analyses.  cfg.d lists the    *)
(* data of the objects; probabilities are recomputed here exactly for      *)
(* small data (sm); d is the deviation from the closed form in thousandths *)
(* of the tolerance; k the exact value (for history independence).         *)
(***************************************************************************)
EXTENDS OnOff, TLC, TraceData
VARIABLES t, i, st
OInit(c) == {}
Close(x, y) == x - y <= 1 /\ y - x <= 1
Memo(s, o, q, a, k) == \A m \in s : (m[1] = o /\ m[2] = q /\ m[3] = a) => m[4] = k
Dev(e) == IF e.d <= 1000 THEN {} ELSE {"C20:value differs from its closed form"}
Single(c, s, e, q) ==
  IF e.uf = "yes" THEN (IF e.r = "ValueError" THEN {} ELSE {"C20:overflow or underflow not reported"})
  ELSE IF e.r = "ValueError" /\ e.uf = "may" THEN {}
  ELSE IF e.r # "ok" THEN {"C20:query failed"}
  ELSE Dev(e) \cup (IF Len(e.k) = Len(e.a) THEN {} ELSE {"C20:wrong number of values"})
       \cup (IF Len(e.k) = Len(e.a) /\ \E j \in 1..Len(e.k) : ~Memo(s, e.o, q, e.a[j], e.k[j]) THEN {"C20:answer depends on history or on vector evaluation"} ELSE {})
OJudge(c, s, e) ==
  LET D == c.d[e.o] IN
  CASE e.op = "new" -> IF e.r # "ok" THEN {"C20:cannot construct"} ELSE Dev(e) \cup (IF e.same THEN {} ELSE {"C20:data members altered"})
    [] e.op = "all" -> IF e.r # "ok" THEN {"C20:query failed"}
                       ELSE IF Len(e.p) # D.non + 1 THEN {"C20:wrong number of probabilities"}
                       ELSE Dev(e) \cup (IF D.sm /\ \E j \in 0..D.non : ~Close(e.p[j + 1], Micro(W(D, j), Total(D))) THEN {"C20:signal count probabilities"} ELSE {})
                            \cup (IF \E j \in 0..D.non : ~Memo(s, e.o, "n", j, e.k[j + 1]) THEN {"C20:answer depends on history or on vector evaluation"} ELSE {})
                            \cup (IF e.nn THEN {} ELSE {"C20:probabilities negative or not summing to one"})
    [] e.op = "n" -> IF e.n < 0 \/ e.n > D.non THEN (IF e.r = "ValueError" THEN {} ELSE {"C20:impossible number of signal counts accepted"})
                     ELSE IF e.r # "ok" THEN {"C20:query failed"}
                     ELSE Dev(e) \cup (IF D.sm /\ ~Close(e.p, Micro(W(D, e.n), Total(D))) THEN {"C20:signal count probabilities"} ELSE {})
                          \cup (IF Memo(s, e.o, "n", e.n, e.k) THEN {} ELSE {"C20:answer depends on history or on vector evaluation"})
    [] e.op = "mp" -> Single(c, s, e, "mp")
    [] e.op = "ml" -> Single(c, s, e, "ml")
    [] e.op = "raw" -> IF e.r # "ok" THEN {"C20:query failed"} ELSE Dev(e) \cup (IF e.nt <= D.non + 1 THEN {} ELSE {"C20:more terms than counts"})
    [] e.op = "vec" -> IF e.r # "ok" THEN {"C20:query failed"} ELSE (IF e.same THEN {} ELSE {"C20:channels differ from single evaluation"})
    [] e.op = "scrib" -> {}
    [] OTHER -> {"C20:unknown event"}
OAfter(c, s, e) ==
  IF e.op = "all" THEN s \cup {<<e.o, "n", j - 1, e.k[j]>> : j \in 1..Len(e.k)}
  ELSE IF e.op = "n" /\ e.r = "ok" THEN s \cup {<<e.o, "n", e.n, e.k>>}
  ELSE IF e.op \in {"mp", "ml"} /\ e.r = "ok" THEN s \cup {<<e.o, e.op, e.a[j], e.k[j]>> : j \in 1..Len(e.k)}
  ELSE s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- OInit, TJudge <- OJudge, TAfter <- OAfter
=============================================================================
