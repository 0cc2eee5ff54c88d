------------------------------- MODULE Backup -------------------------------
(***************************************************************************)
(* Rotation of a file through two levels of backups.  A directory D maps   *)
(* names to contents (version numbers); n0, n1, n2 are the name, the first *)
(* and the second backup.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(D, n) == n \in DOMAIN D
Del(D, n) == [x \in DOMAIN D \ {n} |-> D[x]]
Put(D, n, v) == [x \in DOMAIN D \cup {n} |-> IF x = n THEN v ELSE D[x]]
Rename(D, a, b) == Put(Del(D, a), b, D[a])
\* The complete rotation.
Rotate(D, n0, n1, n2) ==
  IF ~Has(D, n0) THEN D
  ELSE Rename(IF Has(D, n1) THEN Rename(D, n1, n2) ELSE D, n0, n1)
\* The rotation followed by a new version.
Saved(D, n0, n1, n2, v) == Put(Rotate(D, n0, n1, n2), n0, v)
\* What has to hold of directory E however an overwrite of D ended: the two most
\* recent versions are there in full, and no other file that was there changed.
Held(E, ns, v) == \E n \in ns : Has(E, n) /\ E[n] = v
Safe(D, E, n0, n1, n2) ==
  LET ns == {n0, n1, n2} IN
  /\ Has(D, n0) => Held(E, ns, D[n0])
  /\ Has(D, n0) /\ Has(D, n1) => Held(E, ns, D[n1])
  /\ ~Has(D, n0) => \A n \in {n1, n2} : Has(D, n) => Has(E, n) /\ E[n] = D[n]
  /\ \A n \in DOMAIN D \ ns : Has(E, n) /\ E[n] = D[n]
=============================================================================
