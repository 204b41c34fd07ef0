--------------------------- MODULE FittingsModel ---------------------------
(* A client works through a line: every kind of fitting by every method, in   *)
(* every class of opening ratio, cone angle and flow.                          *)
EXTENDS Fittings, TraceIO
CONSTANT Tier
VARIABLES fn, method, ratio, angle, flow
vars == <<fn, method, ratio, angle, flow>>
Angular == {"entrance_angled", "entrance_beveled", "entrance_beveled_orifice", "bend_rounded", "bend_miter", "contraction_conical", "contraction_beveled", "diffuser_conical", "diffuser_conical_staged"}
Ratios == {"0.05", "0.2", "0.3", "0.5", "0.65", "0.9"}
Angles(f) == IF f \in Angular THEN {"5", "20", "30", "45", "60", "90", "120", "150"} ELSE {"90"}
Flows(f) == IF f \in {"bend_rounded", "bend_miter", "contraction_sharp", "contraction_conical", "diffuser_sharp", "diffuser_conical"} THEN {"500", "2500", "4000", "3e4", "5e5", "2e7"} ELSE {"1e5"}
Init == fn \in Functions /\ method \in Methods_(fn) \union (IF Methods_(fn) = {""} /\ fn # "entrance_angled" THEN {} ELSE {"unknown"}) /\ ratio \in Ratios /\ angle = "5" /\ flow = "500"
\* the flow rises; another cone is tried
Next == \/ \E x \in Angles(fn) : angle' = x /\ UNCHANGED <<fn, method, ratio, flow>>
        \/ \E x \in Flows(fn) : flow' = x /\ UNCHANGED <<fn, method, ratio, angle>>
Spec == Init /\ [][Next]_vars
B == R(ratio)
One == R("1")
Th == Rad(R(angle))
\* continuity of the Rennels diffuser across its branches, limits of the contractions
Continuous == fn = "diffuser_conical" /\ method = "Rennels" =>
     /\ Close(DiffuserRennels(R("0.5"), Th, R("0.02")), DiffuserRennels(R("0.4999999999"), Th, R("0.02")), "1e-6")
     /\ Close(DiffuserRennels(B, Rad(R("60")), R("0")), DiffuserRennels(B, Rad(R("60.0000001")), R("0")), "1e-2")
SharpIsCone == fn = "contraction_sharp" => /\ Close(ContractionSharp("Rennels", One, B, One, One), ContractionConical("Rennels", One, B, R("0"), R("3.141592653589793"), One, R("0")), "1e-9")
                                           /\ Close(ContractionSharp("Rennels", One, B, One, One), ContractionRound("Rennels", One, B, R("0")), "1e-9")
StagesAdd == fn = "diffuser_conical_staged" /\ method \in {"Crane", "Rennels"} => Staged(method, <<B, R("1")>>, <<R("0.7")>>, R("0.02")) \succ "0"
Positive == fn = "bend_rounded" /\ angle \notin {"5"} => BendCrane(One, R(angle), R("5"), R("0.015")) \succ "0" /\ BendRennels(One, R(angle), R("5"), R("0.02")) \succ "0"
Emit == (angle \in Angles(fn) \/ angle = "5") /\ (flow \in Flows(fn) \/ flow = "500") => EmitPlan([cell |-> <<fn, method, ratio, angle, flow>>, fn |-> fn, method |-> method, ratio |-> ratio, angle |-> angle, flow |-> flow])
=============================================================================
