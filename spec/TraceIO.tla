------------------------------ MODULE TraceIO ------------------------------
(* Recorded executions in, verdicts and test plans out (TraceIOImpl.java). *)
LoadTraces(path) == <<>>
Report(t, i, fails) == TRUE
EmitPlan(v) == TRUE
=============================================================================
