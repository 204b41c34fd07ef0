---------------------------- MODULE MeterModel ----------------------------
(* A user rates a meter (finds the flow), then sizes it, then finds either     *)
(* pressure again from that flow.                                               *)
EXTENDS Meter, TraceIO
CONSTANT Tier
VARIABLES meter, taps, pos, ratio, re, press, known
vars == <<meter, taps, pos, ratio, re, press, known>>
TapsOf(t) == LET a == Alias(t) IN IF a = "ISO 5167 orifice" THEN {"corner", "flange", "D and D/2", "D", "D/2", "none"}
                ELSE IF a \in {"Miller orifice", "Miller eccentric orifice", "Miller segmental orifice"} THEN MillerTaps(Kind(a)) ELSE {"none"}
PosOf(t) == IF t = "Miller eccentric orifice" THEN {"180 degree", "90 degree"} ELSE {"none"}
Ratios == IF Tier = "quick" THEN {"0.3", "0.55", "0.72"} ELSE {"0.2", "0.3", "0.45", "0.55", "0.65", "0.72", "0.8"}
Flows == IF Tier = "quick" THEN {"700", "4000", "3e6"} ELSE {"700", "2000", "4000", "5e4", "3e6", "1e8"}
Presses == {"0.99", "0.8"}
Init == /\ meter \in Meters /\ taps \in TapsOf(meter) /\ pos \in PosOf(meter) /\ ratio \in Ratios /\ re \in Flows /\ press \in Presses
        /\ meter = "ISA 1932 nozzle" => R(re) \succ "1e4"   \* far outside its range the correlation turns negative
        /\ known = {"D2", "P1", "P2"}
\* forget one quantity, having found the missing one
Next == /\ \E x \in known : known' = (known \ {x}) \union ({"D2", "P1", "P2", "m"} \ known)
        /\ UNCHANGED <<meter, taps, pos, ratio, re, press>>
Spec == Init /\ [][Next]_vars
B == R(ratio)
D == R("0.12")
T1 == IF taps = "none" THEN "corner" ELSE taps
C == IF meter = "unspecified meter" THEN R("0.6") ELSE Coef(meter, D, (D ** B), R(re), T1, pos)
E(r) == Eps(meter, D, (D ** B), R(r), R("1.4"))
Solvable == Cardinality(known) = 3
Expands == E(press) \prec "1" /\ REq(E("1"), R("1")) /\ E(press) \succ "0.5"
MoreDropMoreFlow == LET b == Ratio(meter, D, (D ** B)) IN Flow(D, b, R("2e3"), R("900"), C, E("0.98")) \prec Flow(D, b, R("4e3"), R("900"), C, E("0.96"))
LossIsPart == meter \in Meters \ {"unspecified meter", "venturi nozzle"} => LET l == Loss(meter, D, (D ** B), C, R("1000")) IN l \succ "0" /\ l \prec "1000"
KInverts == LET k == CtoK(B, R("0.61")) IN Close(KtoC(B, k), R("0.61"), "1e-10")
Emit == known = {"D2", "P1", "P2"} => EmitPlan([cell |-> <<meter, taps, pos, ratio, re, press>>, meter |-> meter, taps |-> taps, pos |-> pos, ratio |-> ratio, re |-> re, press |-> press])
=============================================================================
