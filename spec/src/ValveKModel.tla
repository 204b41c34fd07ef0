---------------------------- MODULE ValveKModel ----------------------------
(* A client opens valves of every kind and reassigns K to other diameters.     *)
EXTENDS ValveK, TraceIO
CONSTANT Tier
VARIABLES kind, name, seat, cls
vars == <<kind, name, seat, cls>>
Kinds == {"valve", "lift", "tee", "convert", "darby", "hooper", "basis", "unknown"}
Names(k) == CASE k = "valve" -> Valves [] k = "lift" -> LiftStyles [] k = "tee" -> Tees [] k = "convert" -> {"Kv", "Cv", "K"}
              [] k = "darby" -> {DarbyTable[i][1] : i \in 1 .. Len(DarbyTable)} \union {"constants"} [] k = "hooper" -> {HooperTable[i][1] : i \in 1 .. Len(HooperTable)} \union {"constants"}
              [] OTHER -> {k}
Seats == {"0.4", "0.59", "0.632", "0.666", "0.816", "0.95", "1"}
Classes == {"20", "45", "50", "60", "75", "90"}
Init == kind \in Kinds /\ name \in Names(kind) /\ seat \in Seats /\ cls \in Classes
\* the same coefficient moved to the next diameter
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
X == R(seat)
O == R("1")
NarrowLoses == kind = "valve" /\ seat # "1" => Valve(name, X, O, R(cls), R("0.015")) \succeq Valve(name, O, O, R(cls), R("0.015"))
NoSeatNoChange == kind = "valve" => \A n \in {"globe", "angle 0", "angle 1"} : Close(Published(n, O, O, R("0.02")), Valve(n, O, O, R(cls), R("0.02")), "1e-12")
RoundTrips == kind = "convert" => LET D == X  k == R("3") IN Close(Convert("Kv_to_K", Convert("K_to_Kv", k, D), D), k, "1e-12") /\ Close(Convert("Cv_to_K", Convert("K_to_Cv", k, D), D), k, "1e-12")
BasisComposes == kind = "basis" => Close(Basis(Basis(R("2"), O, X), X, R("0.3")), Basis(R("2"), O, R("0.3")), "1e-12")
Emit == EmitPlan([cell |-> <<kind, name, seat, cls>>, kind |-> kind, name |-> name, seat |-> seat, cls |-> cls])
=============================================================================
