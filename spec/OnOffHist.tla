----------------------------- MODULE OnOffHist -----------------------------
(***************************************************************************)
(* Histories of queries on analysis objects with a lazily filled cache of  *)
(* the signal count probabilities.  An answer is "true" (the function of   *)
(* the object's data and the argument) or "bad".  Scribbling on a returned *)
(* array changes the cache exactly if the array is the cache (Alias).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objs, Ops, MaxLen, Alias, Emit
VARIABLES cache, handles, ans, h
vars == <<cache, handles, ans, h>>
Init == cache = [o \in Objs |-> "none"] /\ handles = {} /\ ans = "true" /\ h = <<>>
Fill(o) == IF cache[o] = "none" THEN "true" ELSE cache[o]
UsesCache(q) == q \in {"all", "n", "mp", "mpv"}
Query(o, q) == /\ Len(h) < MaxLen
               /\ cache' = IF UsesCache(q) THEN [cache EXCEPT ![o] = Fill(o)] ELSE cache
               /\ ans' = IF UsesCache(q) THEN Fill(o) ELSE "true"
               /\ handles' = IF q = "all" THEN handles \cup {o} ELSE handles
               /\ h' = Append(h, [o |-> o, q |-> q])
Scribble(o) == /\ Len(h) < MaxLen /\ o \in handles
               /\ cache' = IF Alias THEN [cache EXCEPT ![o] = "bad"] ELSE cache
               /\ h' = Append(h, [o |-> o, q |-> "scrib"]) /\ UNCHANGED <<handles, ans>>
Next == \E o \in Objs : Scribble(o) \/ \E q \in Ops : Query(o, q)
Spec == Init /\ [][Next]_vars
Answers == ans = "true"
Cached == \A o \in Objs : cache[o] \in {"none", "true"}
EmitC == (Emit /\ Len(h) = MaxLen) => PrintT("@@BEH " \o ToJson(h))
=============================================================================
