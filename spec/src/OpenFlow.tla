------------------------------ MODULE OpenFlow ------------------------------
(* Weirs and open channels, mixing, pneumatic conveying and gas-liquid         *)
(* separation: explicit design equations.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
G0 == R("9.80665")
Ft0 == R("0.3048")
Psi == R("6894.757293168361")
\* ---- weirs
ShenA == <<"20", "40", "60", "80", "100">>
ShenC == <<"0.59", "0.58", "0.575", "0.575", "0.58">>
ShenK == <<"0.0028", "0.0017", "0.0012", "0.001", "0.001">>
Clamp(x, lo, hi) == IF x \prec lo THEN R(lo) ELSE IF x \succ hi THEN R(hi) ELSE x
Shen(h, deg) == LET d == Clamp(deg, "20", "100")  C == Interp(d, ShenA, ShenC)  k == Interp(d, ShenA, ShenK) IN $[ C*tan(deg*pi/360)*sqrt(G0)*(h + k)**2.5 ]
Weir(l, a) ==
  CASE l = "V_Shen" -> Shen(a.h1, IF Has(a, "angle") THEN a.angle ELSE R("90"))
    [] l = "rectangular_Kindsvater_Carter" -> $[ 0.554*(1 - 0.0035*(a.h1)/(a.h2))*((a.b) + 0.0025)*sqrt(G0)*((a.h1) + 0.0001)**1.5 ]
    [] l = "rectangular_SIA" -> LET r == $[ ((a.b)/(a.b1))**2 ]  h == a.h1 ++ a.h2 IN
         $[ 0.544*(1 + 0.064*r + (0.00626 - 0.00519*r)/((a.h1) + 0.0016))*(1 + 0.5*r*r*((a.h1)/h)**2)*(a.b)*sqrt(G0)*h**1.5 ]
    [] l = "rectangular_full_Ackers" -> $[ 0.564*(1 + 0.15*(a.h1)/(a.h2))*(a.b)*sqrt(G0)*((a.h1) + 0.001)**1.5 ]
    [] l = "rectangular_full_SIA" -> $[ 2/3*sqrt(2)*(0.615 + 0.000615/((a.h1) + 0.0016))*(a.b)*sqrt(G0)*(a.h1) + 0.5*((a.h1)/((a.h1) + (a.h2)))**2*(a.b)*sqrt(G0)*(a.h1)**1.5 ]
    [] l = "rectangular_full_Rehbock" -> $[ 2/3*sqrt(2)*(0.602 + 0.0832*(a.h1)/(a.h2))*(a.b)*sqrt(G0)*((a.h1) + 0.00125)**1.5 ]
    [] l = "rectangular_full_Kindsvater_Carter" -> $[ 2/3*sqrt(2)*(0.602 + 0.075*(a.h1)/(a.h2))*((a.b) - 0.001)*sqrt(G0)*((a.h1) + 0.001)**1.5 ]
Weirs == {"V_Shen", "rectangular_Kindsvater_Carter", "rectangular_SIA", "rectangular_full_Ackers", "rectangular_full_SIA", "rectangular_full_Rehbock", "rectangular_full_Kindsvater_Carter"}
\* ---- channels: Manning's and Chezy's coefficients describe one velocity
Manning(Rh, S, n) == $[ Rh**(2/3)*S**0.5/n ]
Chezy(Rh, S, C) == $[ C*(Rh*S)**0.5 ]
NtoC(n, Rh) == $[ Rh**(1/6)/n ]
\* ---- mixing
AgitTime(a) ==
  LET D == IF Has(a, "D") THEN IF Same(a.D, "None") THEN $[ (a.T)/2 ] ELSE a.D ELSE $[ (a.T)/2 ]
      hom == IF Has(a, "homogeneity") THEN a.homogeneity ELSE R("0.95")
      c == $[ ((a.P)*G0/((a.rho)*(a.N)**3*D**5))**(1/3)*(a.rho)*D**2*(a.N)/(a.mu) ]
      Fo == IF c \succeq "6370" THEN $[ 5.2/c ] ELSE $[ (183/c)**2 ]
  IN [c |-> c, t |-> $[ Fo*(a.rho)*(a.T)**1.5*(a.H)**0.5/(a.mu)*log(1 - hom)/log(0.05) ]]
Rieger(a) == $[ 82.8*(a.h)/(a.D)*(((a.T) - (a.D))/(2*(a.D)))**(0 - 0.38)*((a.pitch)/(a.D))**(0 - 0.35)*((a.width)/(a.D))**0.2*(a.nb)**0.78 ]
TeeB(n) == IF n = 1 THEN R("0.7") ELSE IF n = 4 THEN R("2") ELSE R("0.8")
TeeE(n, B) == LET e0 == <<"1.33", "1.44", "1.75", "1.97">>[n]  p == <<"1", "1.5", "1.8", "2">>[n]  b0 == TeeB(n) IN
  IF B \preceq b0 THEN R(e0) ELSE $[ e0 + 0.95*log(B/b0)**p ]
TeeBof(n, a) == LET nn == R(<<"1", "2", "3", "4">>[n])  free == IF Has(a, "D2") THEN Same(a.D2, "None") ELSE TRUE
                    d == IF free THEN $[ ((a.Q2)/(a.Q1))**(2/3) ] ELSE a.D2 // a.D IN $[ nn**2*d**2*((a.Q2)/((a.Q1)*d*d))**2 ]
TeeCoV(n, B, L) == $[ (0.32/B**0.86*L**(0 - (TeeE(n, B))))**0.5 ]
\* ---- pneumatic conveying: velocity at which the solids loading is the saltation loading
Mu(a, V) == $[ (a.mp)/(pi/4*(a.D)**2*V*(a.rhog)) ]
Frs(a, V) == $[ V/sqrt(G0*(a.D)) ]
Frp(a, vt) == $[ vt/sqrt(G0*(a.dp)) ]
Vt(a, d) == IF Has(a, "Vterminal") THEN a.Vterminal ELSE R(d)
Salt(l, a, V) ==  \* <<loading, saltation loading>> or <<Froude number, its value>>
  LET m == Mu(a, V)  f == Frs(a, V)  q == a.rhop // a.rhog IN
  CASE l = "Matsumoto_1974" -> <<m, $[ 0.448*q**0.5*((Frp(a, Vt(a, "1")))/10)**(0 - 1.75)*(f/10)**3 ]>>
    [] l = "Matsumoto_1975" -> <<m, $[ 1.11*q**0.55*((Frp(a, Vt(a, "1")))/10)**(0 - 2.3)*(f/10)**3 ]>>
    [] l = "Matsumoto_1977" -> IF $[ 1.39*(a.D)*q**(0 - 0.74) ] \succ a.dp THEN <<m, $[ 5560*((a.dp)/(a.D))**1.43*(f/10)**4 ]>>
                               ELSE <<m, $[ 0.373*q**1.06*((Frp(a, Vt(a, "1")))/10)**(0 - 3.7)*(f/10)**3.61 ]>>
    [] l = "Schade" -> <<f, $[ m**0.11*((a.D)/(a.dp))**0.025*q**0.34 ]>>
    [] l = "Weber_saltation" -> LET v == Vt(a, "4")  k == IF v \preceq "3" THEN $[ 7 + 8/3*v ] ELSE R("15") IN <<f, $[ k*m**0.25*((a.dp)/(a.D))**0.1 ]>>
Rizk(a, V) == <<Mu(a, V), $[ 10**(0 - 1440*(a.dp) - 1.96)*(Frs(a, V))**(1100*(a.dp) + 2.5) ]>>
Geldart(a) == LET Gs == $[ (a.mp)/(pi/4*(a.D)**2) ]  t == $[ (a.mug)**0.055*(a.rhog)**(0 - 0.42) ] IN
  IF Gs // a.D \preceq "47000" THEN $[ 1.5*Gs**0.465*(a.D)**(0 - 0.01)*t ] ELSE $[ 8.7*Gs**0.302*(a.D)**0.153*t ]
Salts == {"Matsumoto_1974", "Matsumoto_1975", "Matsumoto_1977", "Schade", "Weber_saltation"}
\* ---- separators
WatT == <<"-5.115995809754082", "-5.115995809754082", "-5.115995809754082", "-5.115995809754082", "-4.160106231099973", "-3.209113630523477", "-1.2175106961204154", "0.4587657198189318", "1.1197669427405068", "1.6925908552310418", "1.6925908552310418", "1.6925908552310418", "1.6925908552310418">>
WatC == <<"-1.4404286048266364", "-1.2375168139385286", "-0.9072614905522024", "-0.7662335745829165", "-0.944537665617708", "-1.957339717378027", "-3.002614318094637", "-3.5936804378352956", "-3.8779153181940553">>
Watkins(method, X) ==
  CASE method = "spline" -> BSpl(WatT, WatC, 3, X)
    [] method = "blackwell" -> $[ -1.877478097 + X*(-0.81145804597 + X*(-0.1870744085 + X*(-0.0145228667 - X*0.00101148518))) ]
    [] method = "branan" -> $[ -1.942936 + X*(-0.814894 + X*(-0.179390 + X*(-0.0123790 + X*(0.000386235 + X*0.000259550)))) ]
Side(a) == IF Has(a, "horizontal") THEN IF IsTrue(a.horizontal) THEN R("1.25") ELSE R("1") ELSE R("1")
KWatkins(a, method) == LET X == $[ log((1 - (a.x))/(a.x)*((a.rhog)/(a.rhol))**0.5) ] IN $[ exp(Watkins(method, X))*Ft0*(Side(a)) ]
York(p) == IF p \prec "1" THEN R("0.185") ELSE IF p \prec "15" THEN $[ 0.1821 + 0.0029*p + 0.046*log(p) ] ELSE IF p \prec "40" THEN R("0.35") ELSE LET q == IF p \succ "5500" THEN R("5500") ELSE p IN $[ 0.43 - 0.023*log(q) ]
=============================================================================
