---------------------------- MODULE DiscoveryMC ----------------------------
EXTENDS Discovery, Json
CONSTANTS MaxCls, Emit
VARIABLES cs
N == {"p", "q", "pq"}
D(n, kd) == [n |-> n, kd |-> kd]
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
NoRep(q) == Cardinality({q[j].n : j \in 1..Len(q)}) = Len(q)
SigOwn == {q \in Seqs({D(n, "par") : n \in N}, 2) : NoRep(q)}
PredOwn == {<<D("d", "prd")>>, <<D("p", "par"), D("d", "prd")>>, <<D("d", "prd"), D("q", "par"), D("e", "prd")>>}
Define(c) == cs' = Append(cs, c) /\ (Emit /\ IsInf(c) => PrintT("@@BEH " \o ToJson(cs')))
Idx(kd) == {j \in 1..Len(cs) : cs[j].kind = kd}
Init == cs = <<>>
Next == /\ Len(cs) < MaxCls
        /\ \/ \E b \in Idx("sig") \cup {0}, own \in SigOwn :
                Define([kind |-> "sig", base |-> b, own |-> own, sig |-> 0, pred |-> 0])
           \/ \E b \in Idx("pred") \cup {0}, own \in PredOwn :
                Define([kind |-> "pred", base |-> b, own |-> own, sig |-> 0, pred |-> 0])
           \/ \E g \in Idx("sig"), h \in Idx("pred") :
                Define([kind |-> "inf", base |-> 0, own |-> <<>>, sig |-> g, pred |-> h])
           \/ \E b \in Idx("inf") : Define([kind |-> "isub", base |-> b, own |-> <<>>, sig |-> 0, pred |-> 0])
Spec == Init /\ [][Next]_cs
\* What an accepted inference reports: no repetition, every declaration, model first.
ReportOk == \A k \in 1..Len(cs) : IsInf(cs[k]) /\ ~Dup(cs, k) =>
   LET r == Report(cs, k) IN
   /\ Cardinality(Set(r.params)) = Len(r.params)
   /\ Len(r.params) = Cardinality({x \in N : \E j \in {cs[Root(cs, k)].sig, cs[Root(cs, k)].pred} :
         \E d \in Set(Decls(cs, j)) : d.kd = "par" /\ d.n = x})
\* Later definitions never change what earlier classes report.
Stable == [][\A k \in 1..Len(cs) : IsInf(cs[k]) => Report(cs', k) = Report(cs, k)]_cs
=============================================================================
