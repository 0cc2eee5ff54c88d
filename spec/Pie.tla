-------------------------------- MODULE Pie --------------------------------
(***************************************************************************)
(* The Parametric Inference Engine's parameter bookkeeping: parameters     *)
(* with values, ranges, statuses and step grids, owned by inference        *)
(* objects that keep the three status lists and traverse the step grid.    *)
(*                                                                         *)
(* One operation = one public call.  Apply(O, e) is the (deterministic)    *)
(* effect of call e on object state O:  [s |-> state after, r |-> "ok",    *)
(* "err" (the call must raise) or "stop" (must raise the stop signal)].    *)
(* The same operator drives the exhaustive design model (PieMC), the       *)
(* generation of behaviours for replay, and the judging of recorded        *)
(* executions (PieTrace).                                                  *)
(***************************************************************************)
EXTENDS FloatRec, FiniteSets, TLC

\* A parameter before its first use.
UndefP == [st |-> "undef", v |-> NoF, bd |-> FALSE, lo |-> NoF, hi |-> NoF,
           dl |-> NoF, slo |-> NoF, shi |-> NoF, n |-> 0, ty |-> "none",
           ix |-> 0, dr |-> 1]

NewObj(names) == [p |-> [x \in names |-> UndefP], fx |-> <<>>, sp |-> <<>>, vy |-> <<>>]

InSeq(x, q) == \E j \in 1..Len(q) : q[j] = x
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

-----------------------------------------------------------------------------
(* Values on the step grid: exact at the ends, approximate inside.         *)
Approx(m, l, s) == [k |-> <<-2,0,0>>, m |-> m, l |-> l, s |-> s]
StepVal(q, i) ==
  IF i = q.n - 1 THEN (IF i = 0 THEN q.slo ELSE q.shi)
  ELSE IF i = 0 THEN q.slo
  ELSE IF q.ty = "lin"
       THEN Approx(Frac(q.slo.m, q.shi.m, i, q.n - 1), 0, 9)
       ELSE Approx(0, Frac(q.slo.l, q.shi.l, i, q.n - 1), q.slo.s)
AtStep(q, i) == [q EXCEPT !.ix = i, !.v = StepVal(q, i)]

\* Put all stepping parameters at their first step, stepping forward.
ResetSteps(O) ==
  [O EXCEPT !.p = [x \in DOMAIN O.p |->
      IF InSeq(x, O.sp) THEN [AtStep(O.p[x], 0) EXCEPT !.dr = 1] ELSE O.p[x]]]

\* Change of status: leave the old list, append to the new one; staying put
\* keeps the place.  Anything that involves stepping restarts the traversal.
SetStatus(O, x, new) ==
  LET old == O.p[x].st
      O1 == [O EXCEPT !.p[x].st = new]
      O2 == IF old = new THEN O1
            ELSE [O1 EXCEPT
                   !.fx = IF new = "fixed" THEN Append(Without(O.fx, x), x) ELSE Without(O.fx, x),
                   !.sp = IF new = "stepping" THEN Append(Without(O.sp, x), x) ELSE Without(O.sp, x),
                   !.vy = IF new = "varying" THEN Append(Without(O.vy, x), x) ELSE Without(O.vy, x)]
  IN IF old = "stepping" \/ new = "stepping" THEN ResetSteps(O2) ELSE O2

InRange(q, v) == ~q.bd \/ (FLe(q.lo, v) /\ FLe(v, q.hi))

Ok(O) == [s |-> O, r |-> "ok"]
Err(O) == [s |-> O, r |-> "err"]

-----------------------------------------------------------------------------
(* First use of a parameter installs the declared default as a fixed value *)
Touch(O, x, df) ==
  IF O.p[x].st # "undef" THEN O
  ELSE SetStatus([O EXCEPT !.p[x].v = df[x]], x, "fixed")

RECURSIVE TouchAll(_, _, _)
TouchAll(O, names, df) ==
  IF names = <<>> THEN O ELSE TouchAll(Touch(O, Head(names), df), Tail(names), df)

\* fix(v): also plain assignment.
Fix(O, x, v) ==
  IF InRange(O.p[x], v) THEN Ok(SetStatus([O EXCEPT !.p[x].v = v], x, "fixed")) ELSE Err(O)
\* fix(): freeze at the current value.
Freeze(O, x) == Ok(SetStatus(O, x, "fixed"))

Range(O, x, a, b) ==
  Ok([O EXCEPT !.p[x].bd = TRUE, !.p[x].lo = FMin(a, b), !.p[x].hi = FMax(a, b)])

\* vary(start, delta, range): each part may be absent (NoF).
Vary(O, x, v, d, a, b) ==
  LET q == O.p[x]
      q1 == IF IsF(a) THEN [q EXCEPT !.bd = TRUE, !.lo = FMin(a, b), !.hi = FMax(a, b)] ELSE q
      q2 == IF IsF(d) THEN [q1 EXCEPT !.dl = d] ELSE q1
  IN IF ~q2.bd \/ ~IsF(q2.dl) \/ (IsF(v) /\ ~InRange(q2, v)) THEN Err(O)
     ELSE LET O1 == SetStatus([O EXCEPT !.p[x] = q2], x, "varying")
          IN Ok(IF IsF(v) THEN [O1 EXCEPT !.p[x].v = v] ELSE O1)

\* set_value(v)
SetValue(O, x, v) ==
  IF O.p[x].st = "varying" /\ InRange(O.p[x], v) THEN Ok([O EXCEPT !.p[x].v = v]) ELSE Err(O)

\* linstep/logstep(lo, hi, n); absent bounds default to the range.
SameSign(a, b) == a.s * b.s = 1
StepTo(O, x, a0, b0, n, ty) ==
  LET q == O.p[x]
      a == IF IsF(a0) THEN a0 ELSE q.lo
      b == IF IsF(b0) THEN b0 ELSE q.hi
  IN IF \/ ~IsF(a) \/ ~IsF(b)
        \/ ~InRange(q, a) \/ ~InRange(q, b)
        \/ (ty = "log" /\ ~SameSign(a, b))

     THEN Err(O)
     ELSE LET q1 == [q EXCEPT !.slo = a, !.shi = b, !.n = n, !.ty = ty, !.ix = 0, !.v = a,
                              \* named deviation: linear steps also set the scale
                              !.dl = IF ty = "lin" THEN Approx(0, 0, 9) ELSE q.dl]
          IN Ok(SetStatus([O EXCEPT !.p[x] = q1], x, "stepping"))

\* Stepping one parameter by hand.
PNext(O, x) == LET q == O.p[x] IN
  IF q.st # "stepping" \/ q.ix = q.n - 1 THEN Err(O) ELSE Ok([O EXCEPT !.p[x] = AtStep(q, q.ix + 1)])
PPrev(O, x) == LET q == O.p[x] IN
  IF q.st # "stepping" \/ q.ix = 0 THEN Err(O) ELSE Ok([O EXCEPT !.p[x] = AtStep(q, q.ix - 1)])
PFirst(O, x) == LET q == O.p[x] IN
  IF q.st # "stepping" THEN Err(O) ELSE Ok([O EXCEPT !.p[x] = AtStep(q, 0)])
PLast(O, x) == LET q == O.p[x] IN
  IF q.st # "stepping" THEN Err(O) ELSE Ok([O EXCEPT !.p[x] = AtStep(q, q.n - 1)])

-----------------------------------------------------------------------------
(* The zig-zag traversal: the first stepping parameter that can still move *)
(* in its direction moves; those before it turn around.                    *)
CanMove(q) == IF q.dr = 1 THEN q.ix < q.n - 1 ELSE q.ix > 0
RECURSIVE Zig(_, _)
Zig(O, j) ==
  IF j > Len(O.sp) THEN [s |-> ResetSteps(O), r |-> "stop"]
  ELSE LET x == O.sp[j]
           q == O.p[x]
       IN IF CanMove(q) THEN Ok([O EXCEPT !.p[x] = AtStep(q, q.ix + q.dr)])
          ELSE Zig([O EXCEPT !.p[x].dr = -q.dr], j + 1)
NextStep(O) == IF O.sp = <<>> THEN Err(O) ELSE Zig(O, 1)

StepNums(O) == [j \in 1..Len(O.sp) |-> O.p[O.sp[j]].ix]
StepShape(O) == [j \in 1..Len(O.sp) |-> O.p[O.sp[j]].n]

-----------------------------------------------------------------------------
(* Restoring a snapshot w (a function from names to values).               *)
CanRestore(O, names, w) ==
  \A j \in 1..Len(names) :
    LET q == O.p[names[j]] IN q.st \in {"fixed", "varying"} /\ InRange(q, w[names[j]])
                               /\ (q.st = "varying" => q.bd /\ IsF(q.dl))
Restore(O, names, w) ==
  IF CanRestore(O, names, w)
  THEN Ok([O EXCEPT !.p = [x \in DOMAIN O.p |->
            IF InSeq(x, names) THEN [O.p[x] EXCEPT !.v = w[x]] ELSE O.p[x]]])
  ELSE Err(O)

-----------------------------------------------------------------------------
(* Every public call.  e.op names it; e.p the parameter; e.a .. its        *)
(* arguments.  c.names = parameters in declaration order, c.df = defaults. *)
Apply(c, O0, e) ==
  LET perParam == {"get","assign","fix","freeze","range","badrange","vary","setval","linstep",
                   "logstep","pnext","pprev","pfirst","plast"}
      \* Plain assignment does not read the default first.
      O == IF e.op \in perParam \ {"assign"} THEN Touch(O0, e.p, c.df)
           ELSE IF e.op \in {"snap", "restore"} THEN TouchAll(O0, c.names, c.df)
           ELSE O0
  IN CASE e.op = "get"     -> Ok(O)
       [] e.op = "assign"  -> Fix(O, e.p, e.v)
       [] e.op = "fix"     -> Fix(O, e.p, e.v)
       [] e.op = "freeze"  -> Freeze(O, e.p)
       [] e.op = "range"   -> Range(O, e.p, e.a, e.b)
       [] e.op = "badrange" -> Err(O)
       [] e.op = "vary"    -> Vary(O, e.p, e.v, e.d, e.a, e.b)
       [] e.op = "setval"  -> SetValue(O, e.p, e.v)
       [] e.op = "linstep" -> StepTo(O, e.p, e.a, e.b, e.n, "lin")
       [] e.op = "logstep" -> StepTo(O, e.p, e.a, e.b, e.n, "log")
       [] e.op = "pnext"   -> PNext(O, e.p)
       [] e.op = "pprev"   -> PPrev(O, e.p)
       [] e.op = "pfirst"  -> PFirst(O, e.p)
       [] e.op = "plast"   -> PLast(O, e.p)
       [] e.op = "next"    -> NextStep(O)
       [] e.op = "reset"   -> Ok(ResetSteps(O))
       [] e.op = "nums"    -> Ok(O)
       [] e.op = "snap"    -> Ok(O)
       [] e.op = "restore" -> Restore(O, c.names, e.w)
       [] OTHER            -> Ok(O)

-----------------------------------------------------------------------------
(* Invariants of the design.                                               *)
Count(x, q) == Cardinality({j \in 1..Len(q) : q[j] = x})
Partition(O) == \A x \in DOMAIN O.p :
  /\ Count(x, O.fx) = (IF O.p[x].st = "fixed" THEN 1 ELSE 0)
  /\ Count(x, O.sp) = (IF O.p[x].st = "stepping" THEN 1 ELSE 0)
  /\ Count(x, O.vy) = (IF O.p[x].st = "varying" THEN 1 ELSE 0)
GridOk(O) == \A x \in DOMAIN O.p : O.p[x].st = "stepping" =>
  /\ O.p[x].ix \in 0..(O.p[x].n - 1)
  /\ O.p[x].ix = 0 => O.p[x].v = O.p[x].slo
  /\ (O.p[x].ix = O.p[x].n - 1 /\ O.p[x].ix > 0) => O.p[x].v = O.p[x].shi
VaryOk(O) == \A x \in DOMAIN O.p : O.p[x].st = "varying" => O.p[x].bd /\ IsF(O.p[x].dl)
RangeOk(O) == \A x \in DOMAIN O.p : O.p[x].bd => FLe(O.p[x].lo, O.p[x].hi)
DesignOk(O) == Partition(O) /\ GridOk(O) /\ VaryOk(O) /\ RangeOk(O)
=============================================================================
