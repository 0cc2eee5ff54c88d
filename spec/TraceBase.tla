----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Frame of every trace specification.  The recorded executions (one per   *)
(* line of the file named by VP_TRACES: [id, cfg, ev]) are consumed event  *)
(* by event; every trace is an initial state, so TLC judges them in        *)
(* parallel.  The instantiating module supplies TInit(c), the model state  *)
(* at the start, TJudge(c, s, e), the set of violated clauses of event e   *)
(* in state s, and TAfter(c, s, e), the state after it.  A trace with a    *)
(* violated clause is reported and not followed further.  A run the driver *)
(* could not complete (cfg.aborted) is rejected by its last record.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Traces, TInit(_), TJudge(_, _, _), TAfter(_, _, _)
VARIABLES t, i, st

NT == Len(Traces)

Init == /\ t \in 1..NT
        /\ i = 0
        /\ st = IF "aborted" \in DOMAIN Traces[t].cfg THEN <<>> ELSE TInit(Traces[t].cfg)
        /\ (Len(Traces[t].ev) = 0 => PrintT("@@DONE " \o ToJson([t |-> t])))

Next == LET c == Traces[t].cfg
            n == Len(Traces[t].ev)
        IN /\ i < n
           /\ t' = t
           /\ LET e == Traces[t].ev[IF "aborted" \in DOMAIN c THEN n ELSE i + 1]
                  f == IF "crash" \in DOMAIN e THEN {e.crash} ELSE TJudge(c, st, e)
              IN IF f = {}
                 THEN /\ st' = TAfter(c, st, e)
                      /\ i' = i + 1
                      /\ (i + 1 = n => PrintT("@@DONE " \o ToJson([t |-> t])))
                 ELSE /\ PrintT("@@FAIL " \o ToJson([t |-> t, i |-> i + 1, f |-> f]))
                      /\ PrintT("@@DONE " \o ToJson([t |-> t]))
                      /\ i' = n
                      /\ st' = st
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
