----------------------------- MODULE SimDataMC -----------------------------
(***************************************************************************)
(* The copy-on-change design: arrays live in a heap, objects start with    *)
(* references to the shared original arrays and to the caller's arrays,    *)
(* and localise (copy) before changing anything.  Checked against the      *)
(* value semantics of SimData.  Values: an original value is its index, a  *)
(* simulated one a fresh stamp.                                            *)
(***************************************************************************)
EXTENDS SimData, TLC, Json
CONSTANTS NObj, MaxOps, Emit
VARIABLES heap, ref, glob, val, stamp, hist
vars == <<heap, ref, glob, val, stamp, hist>>
Orig == [x |-> <<1, 2>>, s |-> <<1, 2>>, v |-> <<101, 102>>]
Caller == [x2 |-> <<0, 3>>, x1 |-> <<4>>, s2 |-> <<2, 1>>, s1 |-> <<3>>]
\* heap: id -> array; ids 1..3 the originals, 4..7 the caller's arrays
Heap0 == <<Orig.x, Orig.s, Orig.v, Caller.x2, Caller.x1, Caller.s2, Caller.s1>>
Ops == {[op |-> "sim", k |-> 0, x |-> 0, s |-> 0], [op |-> "sim", k |-> 0, x |-> 4, s |-> 0],
        [op |-> "sim", k |-> 0, x |-> 0, s |-> 6], [op |-> "sim", k |-> 0, x |-> 4, s |-> 6],
        [op |-> "sim", k |-> 0, x |-> 5, s |-> 7], [op |-> "sim", k |-> 0, x |-> 5, s |-> 6],
        [op |-> "sim1", k |-> 1, x |-> 0, s |-> 0], [op |-> "sim1", k |-> 1, x |-> 5, s |-> 0],
        [op |-> "sim1", k |-> 1, x |-> 5, s |-> 7],
        [op |-> "add", k |-> 0, x |-> 5, s |-> 7], [op |-> "add", k |-> 0, x |-> 4, s |-> 6], [op |-> "add", k |-> 0, x |-> 4, s |-> 7]}
Arr(h, i) == IF i = 0 THEN <<>> ELSE h[i]
Init == /\ heap = Heap0 /\ ref = [o \in 1..NObj |-> <<1, 2, 3>>] /\ glob = [o \in 1..NObj |-> TRUE]
        /\ val = [o \in 1..NObj |-> [j \in 1..2 |-> [x |-> Orig.x[j], s |-> Orig.s[j], v |-> Orig.v[j]]]]
        /\ stamp = 200 /\ hist = <<>>
Obs(o) == LET n == Len(heap[ref[o][1]]) IN
          IF Len(heap[ref[o][2]]) # n \/ Len(heap[ref[o][3]]) # n THEN <<>>
          ELSE [j \in 1..n |-> [x |-> heap[ref[o][1]][j], s |-> heap[ref[o][2]][j], v |-> heap[ref[o][3]][j]]]
Cols(d) == <<[j \in 1..Len(d) |-> d[j].x], [j \in 1..Len(d) |-> d[j].s], [j \in 1..Len(d) |-> d[j].v]>>
Act(o, a) ==
  LET r == Do(val[o], a.op, a.k, Arr(Heap0, a.x), Arr(Heap0, a.s))
      D == [j \in 1..Len(r.d) |-> IF j \in r.new THEN [r.d[j] EXCEPT !.v = stamp + j] ELSE r.d[j]]
      b == Len(heap)
  IN /\ hist' = Append(hist, [o |-> o, a |-> a])
     /\ IF ~r.ok THEN UNCHANGED <<heap, ref, glob, val, stamp>>
        ELSE /\ val' = [val EXCEPT ![o] = D]
             /\ stamp' = stamp + 10
             /\ glob' = [glob EXCEPT ![o] = FALSE]
             /\ IF a.op = "sim1" /\ ~glob[o]
                THEN \* already local: change the arrays in place
                     /\ heap' = [heap EXCEPT ![ref[o][1]] = Cols(D)[1], ![ref[o][2]] = Cols(D)[2], ![ref[o][3]] = Cols(D)[3]]
                     /\ UNCHANGED ref
                ELSE \* fresh arrays
                     /\ heap' = heap \o Cols(D)
                     /\ ref' = [ref EXCEPT ![o] = <<b + 1, b + 2, b + 3>>]
Next == /\ Len(hist) < MaxOps
        /\ \E o \in 1..NObj, a \in Ops : Act(o, a)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Same == \A o \in 1..NObj : Obs(o) = val[o]
OriginalsKept == \A i \in 1..7 : heap[i] = Heap0[i]
OthersKept == [][\A o \in 1..NObj : hist'[Len(hist')].o # o => val'[o] = val[o]]_vars
=============================================================================
