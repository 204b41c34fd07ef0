------------------------------- MODULE Relief -------------------------------
(* Relief valves (API 520, 526), flare and relief noise (API 521, VDI 3732).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, ReliefData
Atm == R("101325")
Inch2 == R("6.4516e-4")
Sizes == [i \in 1 .. Len(A_API526_A_sq_inch) |-> R(A_API526_A_sq_inch[i]) ** Inch2]
NSizes == Len(A_API526_A_sq_inch)
Fits(A) == {i \in 1 .. NSizes : Sizes[i] \succeq A}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
RoundSize(A) == Sizes[Least(Fits(A))]
CoefC(k) == IF REq(k, "1") THEN $[ 0.03948*exp(0 - 0.5) ] ELSE $[ 0.03948*sqrt(k*(2/(k + 1))**((k + 1)/(k - 1))) ]
F2(k, P1, P2) == LET r == P2 // P1 IN $[ sqrt(k/(k - 1)*r**(2/k)*(1 - r**((k - 1)/k))/(1 - r)) ]
KN(P1) == $[ 1 if P1 <= 10339000 else (0.02764*P1/1000 - 1000)/(0.03324*P1/1000 - 1061) ]
Bilin(xs, ys, z, x, y) == Interp(y, ys, [j \in 1 .. Len(ys) |-> Interp(x, xs, z[j])])
\* the tabulated superheat corrections; "refused" outside the tables
Superheat(T, P, ed) ==
  IF T \succ "922.15" THEN "refused"
  ELSE CASE ed = "7E" -> IF P \succ "20780325" THEN "refused" ELSE IF T \prec "422.15" THEN R("1") ELSE Bilin(A_KSH_tempKs_7E, A_KSH_Pa_7E, A_KSH_factors_7E, T, P)
         [] ed = "10E" -> IF T \prec "478.15" THEN R("1") ELSE IF P \succ "22063223.338138755" THEN "refused" ELSE Bilin(A_KSH_K_10E, A_KSH_Pa_10E, A_KSH_factors_10E, T, P)
         [] OTHER -> "refused"
Gauge(Pset, Pback) == $[ (Pback - Atm)/(Pset - Atm)*100 ]
Kb(g, over) == CASE REq(over, "0.1") -> IF g \prec "30" THEN R("1") ELSE IF g \succ "50" THEN "refused" ELSE Interp(g, A_Kb_10_over_x, A_Kb_10_over_y)
                 [] REq(over, "0.16") -> IF g \prec "38" THEN R("1") ELSE IF g \succ "50" THEN "refused" ELSE Interp(g, A_Kb_16_over_x, A_Kb_16_over_y)
                 [] REq(over, "0.21") -> IF g \succ "50" THEN "refused" ELSE R("1")
                 [] OTHER -> "refused"
Kw(g) == IF g \prec "15" THEN R("1") ELSE Interp(g, A_Kw_x, A_Kw_y)
Kvis(Re, ed) == CASE ed = "7E" -> LET f == $[ 1/(0.9935 + 2.878/sqrt(Re) + 342.75/Re**1.5) ] IN $[ f if f < 1 else 1 ]
                  [] ed = "10E" -> $[ 1/sqrt(170/Re + 1) ] [] OTHER -> "refused"
Critical(P1, P2, k) == P2 \prec $[ P1*(2/(k + 1))**(k/(k - 1)) ]
AreaG(m, T, Z, MW, k, P1, P2, Kd, Kbk, Kc) ==
  IF Critical(P1, P2, k) THEN $[ m*3600/(CoefC(k)*Kd*Kbk*Kc*P1/1000)*sqrt(T*Z/MW)/1e6 ]
  ELSE $[ 17.9*m*3600/(F2(k, P1, P2)*Kd*Kc)*sqrt(T*Z/(MW*(P1/1000)*(P1 - P2)/1000))/1e6 ]
AreaS(m, T, P1, Kd, Kbk, Kc, ed) == LET s == Superheat(T, P1, ed) IN IF s = "refused" THEN s ELSE $[ 190.5*m*3600/(P1/1000*Kd*Kbk*Kc*KN(P1)*s)/1e6 ]
Rho0 == R("999.0107539518483")
AreaL(m, rho, P1, P2, Kd, Kc, kw, kv) == $[ 11.78*m/rho*60000*sqrt(rho/Rho0/((P1 - P2)/1000))/(Kd*kw*Kc*kv)/1e6 ]
\* viscosity correction from the area without it
VisL(m, rho, P1, P2, Kd, Kc, kw, mu, ed) ==
  LET A == AreaL(m, rho, P1, P2, Kd, Kc, kw, R("1"))  D == $[ sqrt(4*A/pi) ] IN Kvis($[ m*D/(A*mu) ], ed)
Graph(x) == LET r == $[ 1 if x < 1 else x ]  lo == $[ 87.9084*log10(r) + 12.7647 ]  hi == $[ 4.8239*log10(r) + 51.6217 ]
            IN $[ lo if r < 2.92 else (lo + (r - 2.92)/0.01*(hi - lo) if r < 2.93 else hi) ]
Noise521(m, P1, P2, c, d) == $[ Graph(P1/P2) + 10*log10(0.5*m*c*c) - 20*log10(d/30) ]
\* shipped: the mass flow is scaled by 360, where tonnes per hour need 3.6
Flare(m, f, a, b) == $[ a + b*log10(m*f) ]
=============================================================================
