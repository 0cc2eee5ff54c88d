----------------------------- MODULE Pop1DTrace -----------------------------
(***************************************************************************)
(* Judges populations of values.  c.mem: the members as given, each        *)
(* <<value, weight, error>> (error 0 where none were given, c.haserr);     *)
(* c.tot: the weight that is 1 (0: not normalised).  "new" records the     *)
(* members as kept, "pts" the points of the curve, "plot" what was drawn,  *)
(* "draw" samples.                                                         *)
(***************************************************************************)
EXTENDS Pop1D, TLC, TraceData
VARIABLES t, i, st
PInit(c) == [mem |-> <<>>]
If(b, x) == IF b THEN {x} ELSE {}
Col(m, j) == [k \in 1..Len(m) |-> m[k][j]]
ToSet(s) == {s[k] : k \in 1..Len(s)}
\* range with the defaults filled in
S0(v, e) == IF e.nostart THEN v[1] ELSE e.start
E0(v, e) == IF e.noend THEN v[Len(v)] ELSE e.end
PJudge(c, s, e) ==
  CASE e.op = "new" ->
        IF e.r # "ok" THEN {"C30:members refused"}
        ELSE UNION {If(~SameMembers(c.mem, e.mem), "C30:members and their weights and errors"),
                    If(~Sorted(Col(e.mem, 1)), "C30:order of the values"),
                    If(e.cdf # Cdf(Col(e.mem, 2)), "C30:cumulative weights"),
                    If(e.haz # Hazard(Col(e.mem, 2)), "C30:weights from a value on"),
                    If(~e.kept, "C30:the caller's data were changed")}
    [] e.op = "kept" -> If(~e.ok, "C30:the population or the caller's data were changed")
    [] e.op \in {"pts", "plot"} /\ s.mem # <<>> ->
        LET v == Col(s.mem, 1)
            w == Col(s.mem, 2)
            a == S0(v, e)
            b == E0(v, e) IN
        IF ~Spans(v, a, b) THEN If(e.r # "ValueError", "C30:a range inside the values was accepted")
        ELSE IF e.r # "ok" THEN {"C30:range refused"}
        ELSE IF e.op = "pts" THEN
             UNION {If(e.x # HazX(v, a, b), "C30:places of the steps"),
                    If(e.y # HazY(w, c.tot), "C30:heights of the steps"),
                    If(e.haserr # c.haserr, "C30:error bars present or absent"),
                    IF c.haserr /\ e.haserr THEN
                      UNION {If(e.ex2 # ErrX2(v, b), "C30:places of the error bars"),
                             If(e.ey # Hazard(w), "C30:heights of the error bars"),
                             If(e.ee # Col(s.mem, 3), "C30:lengths of the error bars")}
                    ELSE {}}
        ELSE UNION {If(<<HazX(v, a, b), HazY(w, c.tot)>> \notin ToSet(e.lines), "C30:curve drawn"),
                    If(c.haserr /\ \E k \in 1..Len(v) :
                          <<ErrX2(v, b)[k], Hazard(w)[k] - s.mem[k][3], Hazard(w)[k] + s.mem[k][3]>> \notin ToSet(e.bars), "C30:error bars drawn"),
                    If(~c.haserr /\ e.bars # <<>>, "C30:error bars drawn without errors")}
    [] e.op = "draw" /\ s.mem # <<>> ->
        IF e.r # "ok" THEN {"C30:sample refused"}
        ELSE UNION {If(Len(e.items) # e.n, "C30:size of the sample"),
                    If(\E x \in ToSet(e.items) : \A k \in 1..Len(s.mem) : s.mem[k][1] # x \/ (s.mem[k][2] = 0 /\ e.n < Len(s.mem)), "C30:sampled something without weight"),
                    If(e.distinct /\ \E x \in ToSet(e.items) : Count(e.items, x) > Count(Col(s.mem, 1), x), "C30:a member drawn twice")}
    [] OTHER -> {}
PAfter(c, s, e) == IF e.op = "new" /\ e.r = "ok" /\ SameMembers(c.mem, e.mem) THEN [mem |-> e.mem] ELSE s
INSTANCE TraceBase WITH Traces <- TheTraces, TInit <- PInit, TJudge <- PJudge, TAfter <- PAfter
=============================================================================
