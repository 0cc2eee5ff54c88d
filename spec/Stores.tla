------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* Value semantics of the persistent stores.  W = [files, st] where files  *)
(* maps a path to its archive (names to values) and st maps store objects  *)
(* to [name, arch, new]: the path it was opened from ("" if none), the     *)
(* archive as it was then, and what has been assigned since.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [x \in {} |-> 0]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
One(n, v) == [x \in {n} |-> v]
View(s) == Over(s.arch, s.new)
B1(p) == p \o "%"
B2(p) == p \o "%%"
SetSt(W, o, s) == [W EXCEPT !.st = [x \in DOMAIN @ \cup {o} |-> IF x = o THEN s ELSE @[x]]]
PutF(F, p, c) == [x \in DOMAIN F \cup {p} |-> IF x = p THEN c ELSE F[x]]
DelF(F, p) == [x \in DOMAIN F \ {p} |-> F[x]]
RotF(F, p) == IF p \notin DOMAIN F THEN F
              ELSE LET G == IF B1(p) \in DOMAIN F THEN PutF(F, B2(p), F[B1(p)]) ELSE F
                   IN DelF(PutF(G, B1(p), F[p]), p)
New(W, o, kw) == [ok |-> TRUE, W |-> SetSt(W, o, [name |-> "", arch |-> Empty, new |-> kw])]
Open(W, o, p, kw) == IF p \in DOMAIN W.files
                     THEN [ok |-> TRUE, W |-> SetSt(W, o, [name |-> p, arch |-> W.files[p], new |-> kw])]
                     ELSE [ok |-> FALSE, W |-> W]
Assign(W, o, n, v, storable) ==
  IF storable THEN [ok |-> TRUE, W |-> SetSt(W, o, [W.st[o] EXCEPT !.new = Over(@, One(n, v))])]
  ELSE [ok |-> FALSE, W |-> W]
\* p is the path given ("" if none); okval says whether the values can be written at all
Save(W, o, p, okval) ==
  LET q == IF p = "" THEN W.st[o].name ELSE p
  IN IF q = "" \/ ~okval THEN [ok |-> FALSE, W |-> W]
     ELSE [ok |-> TRUE, W |-> [W EXCEPT !.files = PutF(RotF(@, q), q, View(W.st[o]))]]
=============================================================================
