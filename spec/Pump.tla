-------------------------------- MODULE Pump --------------------------------
(* Pumps, motors, drives, and electrical supply.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, PumpData
HP == R("745.69987158227022")
NMotor == Len(U_nema_sizes_hp)
Motors == [i \in 1 .. NMotor |-> R(U_nema_sizes_hp[i]) ** HP]
Fits(P) == {i \in 1 .. NMotor : Motors[i] \succeq P}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
PumpEff(Q) == LET l == (Ln(Q ** "15850.323")) IN ((("0" -- "0.316") ++ ("0.24015" ** l)) -- (("0.01199" ** l) ** l))
MotorEff(P) == LET l == (Ln(P // "745.69987")) IN (("0.8" ++ ("0.0319" ** l)) -- (("0.00182" ** l) ** l))
Bilin(xs, ys, z, x, y) == Interp(y, ys, [j \in 1 .. Len(ys) |-> Interp(x, xs, z[j])])
Drive(P, load) == Bilin(U_VFD_efficiency_loads, U_VFD_efficiency_powers, U_VFD_efficiencies, load, P // HP)
MotorRow(closed, poles, high) == CHOOSE i \in 1 .. Len(U_motor) : U_motor[i].high = high /\ U_motor[i].closed = closed /\ U_motor[i].poles = poles
Csa(P, closed, poles, high) == Interp(P // HP, IF high THEN U_nema_high_P ELSE U_nema_min_P, U_motor[MotorRow(closed, poles, high)].e)
Class(P) == LET p == P // HP IN IF p \preceq "1" THEN 1 ELSE IF p \preceq "5" THEN 2 ELSE IF p \preceq "10" THEN 3 ELSE IF p \preceq "25" THEN 4 ELSE IF p \preceq "60" THEN 5 ELSE 6
Underloaded(P, load) == LET i == Class(P) IN IF load \succ U_efficiency_ones[i] THEN R("1") ELSE Poly(U_efficiency_lists[i], load)
\* four decimals
Rounded(o, x) == CloseA(o, x, "0", "5.00001e-5") /\ CloseA((o ** "10000"), Floor(((o ** "10000") ++ "0.5")), "0", "1e-6")
=============================================================================
