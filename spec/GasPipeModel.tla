---------------------------- MODULE GasPipeModel ----------------------------
(* A client rates a pipeline: it knows four of the five quantities, solves    *)
(* for the fifth, then frees another one and solves for it again.  After any  *)
(* sequence of such steps the five quantities are those of one pipeline.      *)
EXTENDS GasPipe, TraceIO
CONSTANT Tier
VARIABLES eq, known, path
vars == <<eq, known, path>>
MaxLen == IF Tier = "quick" THEN 3 ELSE 4
Init == eq \in Eqs /\ known = Unknowns \ {"Q"} /\ path = <<>>
Solve == \E u \in Unknowns \ known : known' = Unknowns /\ path' = Append(path, u)
Free == known = Unknowns /\ Len(path) < MaxLen /\ \E u \in Unknowns : u # path[Len(path)] /\ known' = Unknowns \ {u} /\ path' = path
Next == UNCHANGED eq /\ (Solve \/ Free)
Spec == Init /\ [][Next]_vars
OneUnknown == Cardinality(Unknowns \ known) <= 1
\* The relation determines the flow and is homogeneous: scaling all pressures (also the reference) scales the gauge away.
Base == [P1 |-> "7e5", P2 |-> "4.1e5", D |-> "0.31", L |-> "1900", SG |-> "0.7", Tavg |-> "293", mu |-> "1.1e-5", rho |-> "5.3", fd |-> "0.019"]
Increasing == \A k \in {"P1", "D"} : Flow(eq, [Base EXCEPT ![k] = Base[k] ** "1.01"]) \succ Flow(eq, Base)
Decreasing == \A k \in {"P2", "L"} : Flow(eq, [Base EXCEPT ![k] = Base[k] ** "1.01"]) \prec Flow(eq, Base)
Emit == known = Unknowns => EmitPlan([cell |-> <<eq, path>>, eq |-> eq, path |-> path])
============================================================================
