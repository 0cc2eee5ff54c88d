----------------------------- MODULE Discovery -----------------------------
(***************************************************************************)
(* Discovery of parameters and predictors from class definitions.  The     *)
(* state is the sequence of classes defined so far; a class is             *)
(*   [kind: "sig"|"pred"|"inf"|"isub", base: index or 0 (the framework's   *)
(*    base class), own: sequence of declarations, sig, pred: mixins]       *)
(* A declaration is [n: name, kd: "par"|"prd"|"oth", v: default, doc].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* A name declared again in a derived class keeps its place and gets the new declaration.
Merge(q, own) ==
  [j \in 1..Len(q) |-> IF \E i \in 1..Len(own) : own[i].n = q[j].n
                      THEN own[CHOOSE i \in 1..Len(own) : own[i].n = q[j].n] ELSE q[j]]
  \o SelectSeq(own, LAMBDA d : \A j \in 1..Len(q) : q[j].n # d.n)
RECURSIVE Decls(_, _)
Decls(cs, k) == IF k = 0 THEN <<>> ELSE Merge(Decls(cs, cs[k].base), cs[k].own)
Sel(q, kd) == SelectSeq(q, LAMBDA d : d.kd = kd)
NamesOf(q) == [j \in 1..Len(q) |-> q[j].n]
Set(q) == {q[j] : j \in 1..Len(q)}

RECURSIVE Root(_, _)
Root(cs, k) == IF cs[k].kind = "isub" THEN Root(cs, cs[k].base) ELSE k
\* Declarations of parameters of inference class k: its model's, then its predictor set's.
ParDecls(cs, k) == LET r == cs[Root(cs, k)] IN Sel(Decls(cs, r.sig), "par") \o Sel(Decls(cs, r.pred), "par")
PrdDecls(cs, k) == LET r == cs[Root(cs, k)] IN Sel(Decls(cs, r.pred), "prd")
Dup(cs, k) == LET q == NamesOf(ParDecls(cs, k)) IN Cardinality(Set(q)) # Len(q)
IsInf(c) == c.kind \in {"inf", "isub"}
InfIdx(cs) == SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : IsInf(cs[j]))
Report(cs, k) == [ok |-> ~Dup(cs, k), params |-> NamesOf(ParDecls(cs, k)), preds |-> NamesOf(PrdDecls(cs, k))]
=============================================================================
