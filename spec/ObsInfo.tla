------------------------------ MODULE ObsInfo ------------------------------
(***************************************************************************)
(* Observed information of an inference at its current parameter values.   *)
(* The computation works by moving the varying parameters of the inference *)
(* itself: it sets them to displaced points, any of which may be rejected  *)
(* (outside a range), scores, and finally goes back to where it started,   *)
(* whether it succeeded or not.  score is the statistic last evaluated; it *)
(* may be that of other parameter values when the computation is asked     *)
(* for, so the one at the mode has to be evaluated (Fresh).                *)
(*   F(x, y) = -(a x^2 + 2 b x y + c y^2)/2  (doubled), mode anywhere.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vs, Hi, MaxOps, Restore, Fresh
VARIABLES v, last, mode, ref, pc, todo, got, info, n, q
vars == <<v, last, mode, ref, pc, todo, got, info, n, q>>
F2(w) == -(q[1] * w[1] * w[1] + 2 * q[2] * w[1] * w[2] + q[3] * w[2] * w[2])
Pt == [1..2 -> Vs]
Shift(m, d) == <<m[1] + d[1], m[2] + d[2]>>
In(w) == w[1] <= Hi /\ w[1] >= -Hi /\ w[2] <= Hi /\ w[2] >= -Hi
Disp == <<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, -1>>>>
Init == /\ v \in Pt /\ mode = v /\ last = <<>> /\ ref = <<>> /\ pc = "idle" /\ todo = 0 /\ got = <<>> /\ info = <<>> /\ n = 0
        /\ q \in {<<2, 1, 3>>, <<1, 0, 1>>, <<4, -1, 2>>}
Set == /\ pc = "idle" /\ n < MaxOps /\ \E w \in Pt : v' = <<w[1], w[2]>>
       /\ n' = n + 1 /\ info' = <<>> /\ UNCHANGED <<last, mode, ref, pc, todo, got, q>>
Score == /\ pc = "idle" /\ n < MaxOps /\ last' = <<F2(v)>> /\ n' = n + 1 /\ info' = <<>> /\ UNCHANGED <<v, mode, ref, pc, todo, got, q>>
Start == /\ pc = "idle" /\ n < MaxOps /\ (last # <<>> \/ Fresh)
         /\ mode' = v /\ ref' = (IF Fresh THEN <<F2(v)>> ELSE last) /\ last' = ref' /\ pc' = "run" /\ todo' = 1 /\ got' = <<>>
         /\ info' = <<>> /\ n' = n + 1 /\ UNCHANGED <<v, q>>
Eval == /\ pc = "run" /\ todo <= 6
        /\ LET w == Shift(mode, Disp[todo]) IN
           IF In(w) THEN v' = w /\ last' = <<F2(w)>> /\ got' = Append(got, F2(w)) /\ todo' = todo + 1 /\ UNCHANGED pc
           ELSE v' = (IF Restore THEN mode ELSE v) /\ last' = (IF Restore THEN <<F2(mode)>> ELSE last) /\ pc' = "idle" /\ UNCHANGED <<got, todo>>
        /\ UNCHANGED <<mode, ref, info, n, q>>
Finish == /\ pc = "run" /\ todo = 7 /\ pc' = "idle"
          /\ info' = LET d(i, j) == 2 * ref[1] - got[i] - got[j]     \* 2 x the negative second difference
                     IN <<d(1, 2), d(5, 6) - d(1, 2) - d(3, 4), d(3, 4)>>
          /\ v' = (IF Restore THEN mode ELSE v) /\ last' = (IF Restore THEN <<F2(mode)>> ELSE last)
          /\ UNCHANGED <<mode, ref, todo, got, n, q>>
Next == Set \/ Score \/ Start \/ Eval \/ Finish
Spec == Init /\ [][Next]_vars
\* the computation leaves the parameters where they were ...
Kept == [][pc = "run" /\ pc' = "idle" => v' = mode]_vars
\* ... and its result depends on nothing but them
Exact == info # <<>> => info = <<2 * q[1], 4 * q[2], 2 * q[3]>>
=============================================================================
