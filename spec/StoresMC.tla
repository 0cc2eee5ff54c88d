------------------------------ MODULE StoresMC ------------------------------
(***************************************************************************)
(* The lazy design of the stores: an archive handle, the values pulled     *)
(* from it so far, the new values, and the attributes in the namespace.    *)
(* Checked against the value semantics of Stores for every history.        *)
(***************************************************************************)
EXTENDS Stores, Json
CONSTANTS Paths, Objs, Names, MaxOps, Emit
VARIABLES W, L, stamp, hist
vars == <<W, L, stamp, hist>>
\* L: object -> [arch, pulled, new, attrs]
Init == /\ \E f \in {Empty, One("p", Over(One("a", 101), One("b", 102)))} :
             W = [files |-> f, st |-> Empty] /\ hist = IF f = Empty THEN <<>> ELSE <<<<"file", 0, "p">>>>
        /\ L = Empty /\ stamp = 1
SetL(o, l) == [x \in DOMAIN L \cup {o} |-> IF x = o THEN l ELSE L[x]]
Log(x) == hist' = Append(hist, x)
Blank(a) == [arch |-> a, pulled |-> Empty, new |-> Empty, attrs |-> Empty]
ANew(o) == /\ W' = New(W, o, Empty).W /\ L' = SetL(o, Blank(Empty)) /\ Log(<<"new", o>>) /\ UNCHANGED stamp
AOpen(o, p) == LET r == Open(W, o, p, Empty) IN
               /\ W' = r.W /\ L' = IF r.ok THEN SetL(o, Blank(W.files[p])) ELSE L
               /\ Log(<<"open", o, p>>) /\ UNCHANGED stamp
ASet(o, n) == /\ W' = Assign(W, o, n, stamp, TRUE).W /\ stamp' = stamp + 1
              /\ L' = SetL(o, [L[o] EXCEPT !.new = Over(@, One(n, stamp)), !.attrs = Over(@, One(n, stamp))])
              /\ Log(<<"set", o, n>>)
\* attribute access pulls from the archive only what is not in the namespace
Pull(l, n) == IF n \in DOMAIN l.attrs \/ n \notin DOMAIN l.arch THEN l
              ELSE [l EXCEPT !.attrs = Over(@, One(n, l.arch[n])), !.pulled = Over(@, One(n, l.arch[n]))]
AGet(o, n) == /\ L' = SetL(o, Pull(L[o], n)) /\ Log(<<"get", o, n>>) /\ UNCHANGED <<W, stamp>>
Gather(l) == Over(Over(l.pulled, [n \in DOMAIN l.arch \ DOMAIN l.pulled |-> l.arch[n]]), l.new)
ASave(o, p) == /\ W' = Save(W, o, p, TRUE).W /\ Log(<<"save", o, p>>) /\ UNCHANGED <<L, stamp>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Objs : \/ ANew(o)
                           \/ \E p \in Paths : AOpen(o, p)
                           \/ /\ o \in DOMAIN L
                              /\ \/ \E n \in Names : ASet(o, n) \/ AGet(o, n)
                                 \/ \E p \in Paths \cup {""} : ASave(o, p)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
LazyIsExact == \A o \in DOMAIN L : /\ Gather(L[o]) = View(W.st[o])
                                   /\ \A n \in DOMAIN L[o].attrs : L[o].attrs[n] = View(W.st[o])[n]
                                   /\ DOMAIN L[o].arch \cup DOMAIN L[o].new = DOMAIN View(W.st[o])
OnlySavesWrite == [][hist'[Len(hist')][1] # "save" => W'.files = W.files]_vars
SaveKeepsStores == [][hist'[Len(hist')][1] = "save" => W'.st = W.st]_vars
OthersKept == [][\A o \in DOMAIN W.st : hist'[Len(hist')][2] # o => W'.st[o] = W.st[o]]_vars
RoundTrip == [][hist'[Len(hist')][1] = "save" /\ Save(W, hist'[Len(hist')][2], hist'[Len(hist')][3], TRUE).ok =>
                LET o == hist'[Len(hist')][2] p == hist'[Len(hist')][3]
                    q == IF p = "" THEN W.st[o].name ELSE p
                IN View(Open(W', o, q, Empty).W.st[o]) = View(W.st[o])]_vars
=============================================================================
