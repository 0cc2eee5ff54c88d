------------------------------- MODULE PieMC -------------------------------
(* Exhaustive exploration of the parameter bookkeeping over small          *)
(* alphabets of calls, and generation of one behaviour per transition for  *)
(* replay on the real code.                                                *)
EXTENDS Pie, Json, IOUtils
CONSTANTS Ops,       \* the calls: records with small-integer arguments
          Names,     \* declaration order
          MaxLen,    \* bound on the length of a history
          Emit       \* print one behaviour per transition?
VARIABLES O, hist, sn, lastr

None == -99
Cv(n) == IF n = None THEN NoF ELSE FI(n)
Ev(op) == [op |-> op.op, p |-> op.p, v |-> Cv(op.v), d |-> Cv(op.d), a |-> Cv(op.a),
           b |-> Cv(op.b), n |-> op.n, w |-> sn]
Df == [x \in {Names[j] : j \in 1..Len(Names)} |-> FI(1)]
C == [names |-> Names, df |-> Df]
NSet == {Names[j] : j \in 1..Len(Names)}

Op(o, p, v, d, a, b, n) == [op |-> o, p |-> p, v |-> v, d |-> d, a |-> a, b |-> b, n |-> n]
P0(o, p) == Op(o, p, None, None, None, None, 0)
PV(o, p, v) == Op(o, p, v, None, None, None, 0)

OpsStatus == UNION {
  {P0("get", x), PV("assign", x, 2), P0("freeze", x), PV("fix", x, 4),
   Op("range", x, None, None, 0, 3, 0), Op("range", x, None, None, 3, 2, 0),
   Op("vary", x, None, None, None, None, 0), Op("vary", x, 1, 1, 0, 3, 0), Op("vary", x, 4, 1, None, None, 0),
   Op("vary", x, 5, 1, 0, 3, 0), Op("vary", x, 2, None, None, None, 0),
   PV("setval", x, 0), PV("setval", x, 4),
   Op("linstep", x, None, None, 1, 3, 2), Op("linstep", x, None, None, 3, 1, 3),
   Op("linstep", x, None, None, None, None, 2), Op("linstep", x, None, None, 1, 5, 2),
   Op("logstep", x, None, None, 1, 2, 2), Op("logstep", x, None, None, -1, 2, 2)} : x \in NSet}
  \cup {P0("next", ""), P0("reset", "")}

OpsStatusQ == UNION {
  {P0("get", x), PV("assign", x, 2), P0("freeze", x), PV("fix", x, 4),
   Op("range", x, None, None, 3, 0, 0),
   Op("vary", x, None, None, None, None, 0), Op("vary", x, 1, 1, 0, 3, 0), Op("vary", x, 5, 1, 0, 3, 0),
   PV("setval", x, 4), Op("linstep", x, None, None, 1, 3, 2), Op("linstep", x, None, None, 1, 5, 2),
   Op("logstep", x, None, None, -1, 2, 2)} : x \in NSet}
  \cup {P0("next", ""), P0("reset", "")}

OpsStep == UNION {
  {Op("linstep", x, None, None, 0, 2, 3), Op("linstep", x, None, None, 2, 0, 2),
   Op("logstep", x, None, None, 1, 3, 3), P0("freeze", x),
   P0("pnext", x), P0("pprev", x), P0("plast", x)} : x \in NSet}
  \cup {P0("next", ""), P0("reset", "")}

OpsSnap == UNION {
  {PV("assign", x, 2), PV("assign", x, 0), Op("vary", x, None, 1, 0, 3, 0),
   Op("range", x, None, None, 1, 2, 0), PV("setval", x, 3),
   Op("linstep", x, None, None, 1, 2, 2), P0("freeze", x)} : x \in NSet}
  \cup {P0("snap", ""), P0("restore", "")}

Names1 == <<"a">>
Names2 == <<"a", "b">>
Names3 == <<"a", "b", "c">>

Init == /\ O = NewObj(NSet) /\ hist = <<>> /\ sn = <<>> /\ lastr = "ok"
\* In the design model approximate interior values are fine as they are.
Next == /\ (Emit => Len(hist) < MaxLen)
        /\ \E op \in Ops :
           /\ (op.op = "restore" => sn # <<>>)
           /\ LET r == Apply(C, O, Ev(op)) IN
              /\ O' = r.s
              /\ lastr' = r.r
              /\ sn' = IF op.op = "snap" THEN [x \in NSet |-> r.s.p[x].v] ELSE sn
              /\ hist' = IF Emit THEN Append(hist, op) ELSE <<op>>
           /\ (Emit => PrintT("@@BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<O, hist, sn, lastr>>
View == <<O, sn>>

InvDesign == DesignOk(O)
\* Rejected calls change nothing but first use.
RejectAtomic == [][lastr' = "err" =>
   \A x \in NSet : O.p[x].st # "undef" => O'.p[x] = O.p[x]]_<<O, hist, sn, lastr>>
\* Whenever the set of stepping parameters or one of their grids changes the
\* traversal restarts.
Grids(o) == [j \in 1..Len(o.sp) |-> <<o.sp[j], o.p[o.sp[j]].slo, o.p[o.sp[j]].shi, o.p[o.sp[j]].n, o.p[o.sp[j]].ty>>]
Restart == [][Grids(O) # Grids(O') => \A j \in 1..Len(O'.sp) : O'.p[O'.sp[j]].ix = 0 /\ O'.p[O'.sp[j]].dr = 1]_<<O, hist, sn, lastr>>
\* A parameter that keeps its status keeps its place.
Before(q, x, y) == \E j, k \in 1..Len(q) : j < k /\ q[j] = x /\ q[k] = y
PlaceKept == [][\A x, y \in NSet : (O.p[x].st = O'.p[x].st /\ O.p[y].st = O'.p[y].st) =>
   /\ Before(O.fx, x, y) => Before(O'.fx, x, y)
   /\ Before(O.sp, x, y) => Before(O'.sp, x, y)
   /\ Before(O.vy, x, y) => Before(O'.vy, x, y)]_<<O, hist, sn, lastr>>
\* An accepted restore reproduces the snapshot.
RestoreExact == [][Len(hist') > 0 /\ hist'[Len(hist')].op = "restore" /\ lastr' = "ok"
   => \A x \in NSet : O'.p[x].v = sn[x] /\ O'.p[x].st = (IF O.p[x].st = "undef" THEN "fixed" ELSE O.p[x].st)]_<<O, hist, sn, lastr>>
=============================================================================
