----------------------------- MODULE TraceData -----------------------------
(* The recorded executions under judgement.                                *)
EXTENDS Json, IOUtils
TheTraces == ndJsonDeserialize(IOEnv.VP_TRACES)
=============================================================================
