------------------------------- MODULE Zigzag -------------------------------
(* The traversal of every step grid of up to MaxDim parameters with up to  *)
(* MaxSteps steps: each point exactly once, one unit step at a time, then  *)
(* stop and reset.                                                         *)
EXTENDS Pie
CONSTANTS MaxDim, MaxSteps
VARIABLES O, seen, stopped
NS == <<"a", "b", "c", "d", "e">>
Shapes == UNION {[1..d -> 1..MaxSteps] : d \in 1..MaxDim}
Obj(sh) == [NewObj({NS[j] : j \in 1..Len(sh)}) EXCEPT
   !.sp = [j \in 1..Len(sh) |-> NS[j]],
   !.p = [x \in {NS[j] : j \in 1..Len(sh)} |->
            LET j == CHOOSE j \in 1..Len(sh) : NS[j] = x
            IN [UndefP EXCEPT !.st = "stepping", !.slo = FI(0), !.shi = FI(sh[j] - 1), !.n = sh[j],
                              !.ty = "lin", !.v = FI(0)]]]
Init == \E sh \in Shapes : O = Obj(sh) /\ seen = <<StepNums(Obj(sh))>> /\ stopped = FALSE
Next == /\ ~stopped
        /\ LET r == NextStep(O) IN
           /\ O' = r.s
           /\ stopped' = (r.r = "stop")
           /\ seen' = IF r.r = "stop" THEN seen ELSE Append(seen, StepNums(r.s))
Spec == Init /\ [][Next]_<<O, seen, stopped>>
RECURSIVE Prod(_, _)
Prod(s, j) == IF j > Len(s) THEN 1 ELSE s[j] * Prod(s, j + 1)
NoRepeat == \A j \in 1..(Len(seen) - 1) : seen[j] # seen[Len(seen)]
UnitStep == [][~stopped' => \E j \in 1..Len(O.sp) :
     /\ Abs(StepNums(O')[j] - StepNums(O)[j]) = 1
     /\ \A k \in 1..Len(O.sp) : k # j => StepNums(O')[k] = StepNums(O)[k]]_<<O, seen, stopped>>
AllAtStop == stopped => /\ Len(seen) = Prod(StepShape(O), 1)
                        /\ \A j \in 1..Len(O.sp) : O.p[O.sp[j]].ix = 0 /\ O.p[O.sp[j]].dr = 1
NeverLate == Len(seen) <= Prod(StepShape(O), 1)
=============================================================================
