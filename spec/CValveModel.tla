---------------------------- MODULE CValveModel ----------------------------
(* Sizing as the standard prescribes it: one pass per step.                     *)
EXTENDS CValve, TraceIO
CONSTANT Tier
VARIABLES kind, regime, fit, opts, style, C, pass
vars == <<kind, regime, fit, opts, style, C, pass>>
Kinds == {"liquid", "gas", "noise l", "noise g", "choke", "factor", "scale", "opening"}
Regimes(k) == CASE k = "liquid" -> {"normal", "near choke", "choked", "laminar", "creeping", "tiny drop"} [] k = "gas" -> {"normal", "near choke", "choked", "laminar", "creeping", "tiny drop"}
                [] k = "noise l" -> {"quiet", "cavitating", "near"} [] k = "noise g" -> {"1", "2", "3", "4", "5"} [] k = "factor" -> {"creeping", "laminar", "transition"} [] OTHER -> {"any"}
Fits == {"none", "line size", "reduced", "reduced out", "widened"}
Opts == {<<c, l>> : c, l \in BOOLEAN}
Styles == {<<"0.9", "0.46">>, <<"0.6", "0.98">>, <<"0.98", "0.07">>}
Sz(k) == k \in {"liquid", "gas"}
q0 == [rho |-> R("965.4"), Psat |-> R("70.1e3"), Pc |-> R("22120e3"), mu |-> R("3.1472e-4"), P1 |-> R("680e3"), P2 |-> IF regime = "tiny drop" THEN R("679e3") ELSE R("220e3"), Q |-> R("0.1"),
       D1 |-> R("0.1"), D2 |-> IF fit = "reduced out" THEN R("0.12") ELSE R("0.1"), d |-> IF fit = "line size" THEN R("0.1") ELSE R("0.09"), FL |-> R(style[1]), Fd |-> R(style[2])]
FF0 == CriticalRatio(q0.Psat, q0.Pc)
Go == kind = "liquid" /\ fit \in {"reduced", "reduced out"}
Init == /\ kind \in Kinds /\ regime \in Regimes(kind) /\ fit \in (IF Sz(kind) THEN Fits ELSE {"none"}) /\ opts \in (IF Sz(kind) THEN Opts ELSE {<<TRUE, TRUE>>}) /\ style \in Styles
        /\ C = FlowL(q0, R("1")) /\ pass = 0
Next == /\ Go /\ pass < 20
        /\ LET v == Pass([gas |-> FALSE, q |-> q0, F |-> FF0, choke |-> opts[1]], C) IN (C // v[1]) \prec "0.99" /\ C \prec "1e40" /\ C' = v[1]
        /\ pass' = pass + 1
        /\ UNCHANGED <<kind, regime, fit, opts, style>>
Spec == Init /\ [][Next]_vars
\* fittings only ever ask for a larger valve, and the stepwise iteration is the recursive answer
Larger == (Go /\ fit = "reduced") => C \succeq FlowL(q0, R("1"))
SameAnswer == (Go /\ fit = "reduced") => LET w == Piping(FlowL(q0, R("1")), 0, [gas |-> FALSE, q |-> q0, F |-> FF0, choke |-> opts[1]]) IN w[1] \succeq C
ChokeInverts == kind = "choke" => LET P2 == ChokeL2(q0.Psat, q0.Pc, q0.FL, q0.P1) IN Close(ChokeL1(q0.Psat, q0.Pc, q0.FL, P2), q0.P1, "1e-10") /\ Close(ChokeG1(R("0.7"), R("1.3"), ChokeG2(R("0.7"), R("1.3"), R("2e5"))), R("2e5"), "1e-10")
ScaleInverts == kind = "scale" => \A s \in {"Kv", "Cv", "Av"} : Close(FromKv(ToKv(R("7"), s), s), R("7"), "1e-12")
Tables == kind = "opening" => /\ \A i \in 1 .. Len(V_opening_quick) : CloseA(Quick(R(V_opening_quick[i])), R(V_frac_CV_quick[i]), "1e-9", "1e-9")
                              /\ \A i \in 1 .. Len(V_opening_equal) : CloseA(EqualPct(R(V_opening_equal[i])), R(V_frac_CV_equal[i]), "1e-9", "1e-9")
Emit == pass = 0 => EmitPlan([cell |-> <<kind, regime, fit, opts, style>>, kind |-> kind, regime |-> regime, fit |-> fit, choke |-> opts[1], laminar |-> opts[2], FL |-> style[1], Fd |-> style[2]])
=============================================================================
