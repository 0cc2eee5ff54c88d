------------------------------ MODULE RngStore ------------------------------
(***************************************************************************)
(* Saving and restoring the random state.  A generator state is opaque (an *)
(* identifier of the stream it produces); files maps names to states.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Empty == [x \in {} |-> 0]
Put(F, p, v) == [x \in DOMAIN F \cup {p} |-> IF x = p THEN v ELSE F[x]]
Rot(F, p, v) ==
  LET G == IF p \in DOMAIN F
           THEN Put(IF (p \o ".1") \in DOMAIN F THEN Put(F, p \o ".2", F[p \o ".1"]) ELSE F, p \o ".1", F[p])
           ELSE F
  IN Put(G, p, v)
SaveR(S, p) == [S EXCEPT !.files = Rot(@, p, S.cur)]
RestoreR(S, p) == IF p \in DOMAIN S.files THEN [S EXCEPT !.cur = S.files[p]] ELSE SaveR(S, p)
=============================================================================
