-------------------------------- MODULE Bed --------------------------------
(* Pressure drop of packed beds, tower packings, demisters, screens and grills *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
G0 == R("9.80665")
Plain == <<"Erdim, Akgiray & Demir", "Idelchik", "Fahien & Schriver", "KTA", "Brauer", "Hicks", "Carman", "Jones & Krier", "Kuo & Nydegger", "Tallmadge", "Ergun">>
Tubed == <<"Harrison, Brunner & Hecker", "Montillet, Akkari & Comiti", "Guo, Sun, Zhang, Ding & Liu">>
All == Tubed \o Plain
Listed(tube) == IF tube THEN All ELSE Plain
Default(tube) == IF tube THEN "Harrison, Brunner & Hecker" ELSE "Erdim, Akgiray & Demir"
\* laws of the form dP/L = (A + B (Re/(1-e))^n) (1-e)^2/(e^3 Re) rho v^2/d
Law == [ x \in {"Erdim, Akgiray & Demir", "KTA", "Brauer", "Carman", "Jones & Krier", "Kuo & Nydegger", "Tallmadge", "Ergun"} |->
         CASE x = "Ergun" -> <<"150", "1.75", "1">> [] x = "KTA" -> <<"160", "3", "0.9">> [] x = "Brauer" -> <<"160", "3.1", "0.9">> [] x = "Carman" -> <<"180", "2.871", "0.9">>
           [] x = "Jones & Krier" -> <<"150", "3.89", "0.87">> [] x = "Kuo & Nydegger" -> <<"276.23", "5.05", "0.87">> [] x = "Tallmadge" -> <<"150", "4.2", "0.8333333333333333333">>
           [] x = "Erdim, Akgiray & Demir" -> <<"160", "2.81", "0.904">> ]
\* dimensionless drop dP d/(rho v^2 L) at Reynolds number Re, voidage e, tube/particle ratio r ("None" without tube)
Drop(x, Re, e, r) ==
  LET h == $[ 1 - e ]  m == $[ Re/(1 - e) ] IN
  CASE x \in DOMAIN Law -> LET A == Law[x][1] B == Law[x][2] n == Law[x][3] IN $[ (A + B*m**n)*h*h/(e**3*Re) ]
    [] x = "Hicks" -> $[ 6.8*h**1.2/(Re**0.2*e**3) ]
    [] x = "Fahien & Schriver" -> LET q == $[ exp(0 - e*e*h*m/12.6) ] IN $[ (q*136/h**0.38/m + (1 - q)*(1.87*e**0.75/h**0.26 + 29/(h**1.45*e*e)/m))*h/e**3 ]
    [] x = "Idelchik" -> LET z == $[ 0.45/sqrt(e)*m ] IN $[ 0.765/e**4.2*(30/z + 3/z**0.7 + 0.3) ]
    [] x = "Harrison, Brunner & Hecker" -> LET A == IF Same(r, "None") THEN R("1") ELSE $[ (1 + pi/(6*h*r))**2 ]  B == IF Same(r, "None") THEN R("1") ELSE $[ 1 - pi**2/(24*r)*(1 - 0.5/r) ] IN $[ (119.8*A + 4.63*B*m**(5/6))*h*h/(e**3*Re) ]
    [] x = "Montillet, Akkari & Comiti" -> LET a == IF e \prec "0.4" THEN R("0.061") ELSE R("0.05")  D == IF Same(r, "None") THEN R("2.2") ELSE IF r \succ "50" THEN R("2.2") ELSE $[ r**0.2 ] IN
                                           $[ a*D*(1000/Re + 60/sqrt(Re) + 12)*h/e**3 ]
    [] x = "Guo, Sun, Zhang, Ding & Liu" -> LET k == IF Same(r, "None") THEN R("3.5") ELSE $[ 1/r ] IN $[ (180 + (9.5374*k - 2.8054)*m**0.97)*h*h/(e**3*Re) ]
DP(x, d, e, v, rho, mu, L, Dt) == LET z == $[ d*rho*v/mu ]  y == Drop(x, z, e, IF Same(Dt, "None") THEN "None" ELSE Dt // d) IN $[ y*rho*v*v*L/d ]
\* voidage
Void(k, d, Dt, phi) == CASE k = "general" -> $[ 0.1504 + 0.2024/phi + 1.0814/(Dt/d + 0.1226)**2 ] [] k = "spherical" -> $[ 0.39 + 1.74/(Dt/d + 1.14)**2 ] [] k = "cylindrical" -> $[ 0.373 + 1.703/(Dt/d + 0.611)**2 ]
\* demisters
DemDry(S, e, v, rho, mu, L) == $[ (10.29 - 565/(69.6*S*L - (S*L)**2 - 779) - 74.9/(160.9 - 4.85*S*L) + 45.33*(mu*e*S*S*L/(rho*v))**0.75)*rho*v*v/e**2 ]
DemLit(S, e, v, rho, mu, L) == $[ (7.3 - 320/(69.6*S*L - (S*L)**2 - 779) - 52.4/(161 - 4.85*S*L) + 27.2*(mu*e*S*S*L/(rho*v))**0.75)*rho*v*v/e**2 ]
DemWet(v, e, d, L) == $[ 0.002357*L*(1 - e)**0.375798*v**0.81317*d**(0-1.56114147) ]
DemSep(v, e, d, p) == RMin(R("1"), $[ 0.85835*d**(0-0.28264)*(1 - e)**0.099625*v**0.106878*p**0.383197 ])
\* Stichlmair; p = [rhog, mug, voidage, a, C1, C2, C3]
Grain(p) == $[ 6*(1 - p.voidage)/p.a ]
ReG(p, Vg) == $[ Vg*p.rhog*(Grain(p))/p.mug ]
F0(p, Vg) == LET z == ReG(p, Vg) IN $[ p.C1/z + p.C2/sqrt(z) + p.C3 ]
Dry(p, Vg, H) == $[ 0.75*(F0(p, Vg))*(1 - p.voidage)/p.voidage**4.65*p.rhog*H/(Grain(p))*Vg*Vg ]
CC(p, Vg) == LET z == ReG(p, Vg) IN $[ (0 - p.C1/z - p.C2/(2*sqrt(z)))/(F0(p, Vg)) ]
H0(p, Vl) == $[ 0.555*(Vl*Vl*p.a/(G0*p.voidage**4.65))**(1/3) ]
Hold(p, Vl, x) == $[ (H0(p, Vl))*(1 + 20*x*x) ]                      \* x = dP/(H rhol g)
Wet(p, Vg, Vl, x, H) == LET hT == Hold(p, Vl, x) IN $[ (Dry(p, Vg, H))*((1 - p.voidage + hT)/(1 - p.voidage))**((2 + (CC(p, Vg)))/3)*(p.voidage/(p.voidage - hT))**4.65 ]
\* d ln(wet)/d ln(dP): reaches one at the flood point, below it the column operates
Steep(p, Vg, Vl, x) == LET hT == Hold(p, Vl, x) IN $[ 40*(H0(p, Vl))*x*x*((2 + (CC(p, Vg)))/(3*(1 - p.voidage + hT)) + 4.65/(p.voidage - hT)) ]
XMax(p, Vl) == $[ sqrt((p.voidage/(H0(p, Vl)) - 1)/20) ]
XFlood(p, Vg, Vl) == Zero([x \in Reals |-> $[ (Steep(p, Vg, Vl, x)) - 1 ]], R("1e-9"), $[ (XMax(p, Vl))*(1 - 1e-12) ])
Robbins(L0, G1, rl0, rg0, mu, H, F) ==
  LET L1 == $[ L0*737.33812 ]  G2 == $[ G1*737.33812 ]  rl == $[ rl0*0.062427961 ]  rg == $[ rg0*0.062427961 ]
      Lf == $[ L1*62.4/rl*sqrt(F/20)*(mu*1000)**0.1 ]  Gf == $[ G2*sqrt(0.075/rg)*sqrt(F/20) ]  t == $[ 7.4e-8*Gf*Gf*10**(2.7e-5*Lf) ]
  IN $[ (t + 0.4*(Lf/20000)**0.1*t**4)*817.22083*H ]
\* screens
Thetas == <<"0", "10", "20", "30", "40", "50", "60", "70", "80", "85">>
Gammas == <<"1", "0.97", "0.88", "0.75", "0.59", "0.45", "0.3", "0.23", "0.15", "0.09">>
Tilt(th, closed) == IF th \prec "45" \/ (closed /\ REq(th, "45")) THEN $[ cos(th*pi/180)**2 ] ELSE Interp(th, Thetas, Gammas)
Screen(al, Re) == LET b == Interp(Re, <<"20", "30", "40", "60", "80", "100", "200", "400">>, <<"1.3", "1.1", "0.95", "0.83", "0.75", "0.7", "0.6", "0.52">>) IN $[ b*(1 - al*al)/(al*al) ]
Mesh(s, al) == LET c == CASE s = "round bar screen" -> <<"0.95", "0.2">> [] s = "diamond pattern wire" -> <<"0.67", "1.3">> [] s = "knotted net" -> <<"0.7", "4.9">> [] s = "knotless net" -> <<"0.72", "2.1">>
                   a == c[1]  b == c[2] IN $[ a*(1 - al) + b*(1 - al)**2 ]
Alphas == <<"0.0015625", "0.003125", "0.00625", "0.0125", "0.025", "0.05", "0.1", "0.15", "0.2", "0.25", "0.3", "0.35", "0.4", "0.45", "0.5", "0.55", "0.6", "0.65", "0.7", "0.75", "0.8", "0.85", "0.9", "1">>
Ks == <<"1024000", "256000", "64000", "16000", "4000", "1000", "250", "85", "52", "30", "17", "11", "7.7", "5.5", "3.8", "2.8", "2", "1.5", "1.1", "0.78", "0.53", "0.35", "0.08", "0">>
SqScreen(al) == Interp(al, Alphas, Ks)
Long(a) == IF Has(a, "l") /\ Has(a, "Dh") /\ Has(a, "fd") THEN a.l \succ $[ 50*(a.Dh) ] ELSE FALSE
Rub(a) == IF Long(a) THEN $[ (a.fd)*(a.l)/(a.Dh) ] ELSE R("0")
SqGrill(a) == LET al == a.alpha IN $[ (0.5*(1 - al) + 1 - al*al + (Rub(a)))/(al*al) ]
\* the quadratic spline through the five published points
RdTable == <<<<"0.3", "2">>, <<"0.4", "1">>, <<"0.5", "0.6">>, <<"0.6", "0.4">>, <<"0.7", "0.2">>>>
RdGrill(a) == LET al == a.alpha  b == BSpl(<<"0.3", "0.3", "0.3", "0.45", "0.55", "0.7", "0.7", "0.7">>, <<"2", "1.00142857142857142857", "0.58", "0.35857142857142857143", "0.2">>, 2, al) IN $[ b + (Rub(a))/(al*al) ]
=============================================================================
