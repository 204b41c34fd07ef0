----------------------------- MODULE PumpModel -----------------------------
EXTENDS Pump, TraceIO
CONSTANT Tier
VARIABLES kind, opt, band, need, at, found
vars == <<kind, opt, band, need, at, found>>
Kinds == {"size", "csa", "drive", "underload", "current", "speed", "corripio", "tables"}
Opts(k) == CASE k = "csa" -> {<<U_motor[i].closed, U_motor[i].poles, U_motor[i].high>> : i \in 1 .. Len(U_motor)} [] k = "current" -> {<<1>>, <<3>>, <<0>>} [] OTHER -> {<<>>}
Bands(k) == CASE k = "size" -> 0 .. NMotor [] k = "csa" -> 0 .. 28 [] k = "drive" -> 0 .. 11 [] k = "underload" -> 1 .. 6 [] OTHER -> {0}
Init == /\ kind \in Kinds /\ opt \in Opts(kind) /\ band \in Bands(kind) /\ at = 1 /\ found = FALSE
        /\ need \in (IF kind = "size" THEN IF band = 0 THEN {R("1")} ELSE {Motors[band] ** R(f) : f \in {"0.9999", "1", "1.0001"}} ELSE {R("0")})
Next == /\ kind = "size" /\ ~found /\ at <= NMotor
        /\ IF Motors[at] \succeq need THEN found' = TRUE /\ at' = at ELSE found' = FALSE /\ at' = at + 1
        /\ UNCHANGED <<kind, opt, band, need>>
Spec == Init /\ [][Next]_vars
LeastFit == /\ found => at = Least(Fits(need))
            /\ (kind = "size" /\ at > NMotor) => Fits(need) = {}
Up(s) == \A i \in 1 .. Len(s) - 1 : s[i] \prec s[i + 1]
Tables == kind = "tables" => /\ Up(U_nema_sizes_hp) /\ Up(U_nema_high_P) /\ Up(U_nema_min_P) /\ Up(U_VFD_efficiency_loads) /\ Up(U_VFD_efficiency_powers)
             /\ \A i \in 1 .. Len(U_motor) : \A j \in 1 .. Len(U_motor[i].e) : U_motor[i].e[j] \prec "1" /\ Len(U_motor[i].e) = Len(IF U_motor[i].high THEN U_nema_high_P ELSE U_nema_min_P)
\* high efficiency motors are never worse than the minimum
Better == kind = "tables" => \A c \in BOOLEAN : \A p \in {2, 4, 6} : \A i \in 1 .. Len(U_nema_high_P) : LET P == R(U_nema_high_P[i]) ** HP IN Csa(P, c, p, TRUE) \succeq Csa(P, c, p, FALSE)
\* the fitted curves reach about 1 where they are declared to be 1
Joins == (kind = "underload" /\ band > 1) => LET P == R(<<"0.5", "3", "7", "20", "40", "90">>[band]) ** HP IN CloseA(Underloaded(P, U_efficiency_ones[band]), "1", "0", "0.002")
Emit == at = 1 /\ ~found => EmitPlan([cell |-> <<kind, opt, band>>, kind |-> kind, opt |-> opt, band |-> band])
=============================================================================
