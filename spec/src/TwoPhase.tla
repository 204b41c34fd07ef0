------------------------------ MODULE TwoPhase ------------------------------
(* Frictional, accelerational and gravitational pressure change of two-phase   *)
(* flow in pipes, and the flow pattern maps.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
G0 == R("9.80665")
\* the Darcy factor: laminar, or the root of Colebrook's relation
FD(Re, eD) == IF Re \prec "2040" THEN $[ 64/Re ] ELSE LET y == Zero([z \in Reals |-> $[ z + 2*log10(eD/3.7 + 2.51*z/Re) ]], R("0.05"), R("80")) IN $[ 1/(y*y) ]
Blas(Re) == IF Re \prec "2000" THEN $[ 64/Re ] ELSE IF Re \prec "20000" THEN $[ 0.316*Re**(0-0.25) ] ELSE $[ 0.184*Re**(0-0.2) ]
LMf(Re, c) == IF Re \prec c THEN $[ 64/Re ] ELSE $[ 0.184*Re**(0-0.2) ]
Opt(a, k, d) == IF Has(a, k) THEN Get(a, k) ELSE d
Area(a) == $[ pi/4*(a.D)**2 ]
Flux(a) == a.m // Area(a)
Len0(a) == Opt(a, "L", R("1"))
Rough(a) == Opt(a, "roughness", R("0")) // a.D
\* Reynolds numbers: lo/go everything liquid/gas, l/g the phase alone
ReLo(a) == $[ (Flux(a))*(a.D)/(a.mul) ]
ReGo(a) == $[ (Flux(a))*(a.D)/(a.mug) ]
ReL(a) == $[ (1 - (a.x))*(ReLo(a)) ]
ReG(a) == a.x ** ReGo(a)
Drop(f, G, rho, a) == $[ f*(Len0(a))/(a.D)*G*G/(2*rho) ]
PLo(a) == Drop(FD(ReLo(a), Rough(a)), Flux(a), a.rhol, a)
PGo(a) == Drop(FD(ReGo(a), Rough(a)), Flux(a), a.rhog, a)
PL(a) == Drop(FD(ReL(a), Rough(a)), $[ (1 - (a.x))*(Flux(a)) ], a.rhol, a)
PG(a) == Drop(FD(ReG(a), Rough(a)), a.x ** Flux(a), a.rhog, a)
RhoH(a) == $[ 1/((a.x)/(a.rhog) + (1 - (a.x))/(a.rhol)) ]
FrH(a) == $[ (Flux(a))**2/(G0*(a.D)*(RhoH(a))**2) ]
WeH(a) == $[ (Flux(a))**2*(a.D)/((a.sigma)*(RhoH(a))) ]
Co(a) == $[ sqrt((a.sigma)/(G0*((a.rhol) - (a.rhog))))/(a.D) ]
\* Chisholm's form of the Lockhart-Martinelli multiplier
Mult(C, pl, pg) == LET X == Sqrt(pl // pg) IN $[ pl*(1 + C/X + 1/(X*X)) ]
Friedel(a) ==
  LET x == a.x  q == a.rhol // a.rhog  u == a.mug // a.mul  flo == FD(ReLo(a), Rough(a))  fgo == FD(ReGo(a), Rough(a))
      F == $[ x**0.78*(1 - x)**0.224 ]  H == $[ q**0.91*u**0.19*(1 - u)**0.7 ]  E == $[ (1 - x)**2 + x*x*q*fgo/flo ]
  IN $[ (PLo(a))*(E + 3.24*F*H/((FrH(a))**0.0454*(WeH(a))**0.035)) ]
Omega(a) == LET B == $[ G0*((a.rhol) - (a.rhog))*(a.D)**2/(4*(a.sigma)) ] IN
  IF B \prec "2.5" THEN $[ 0.0333*(ReLo(a))**0.45/((ReG(a))**0.09*(1 + 0.4*exp(0 - B))) ] ELSE $[ (WeH(a))**0.2/(2.5 + 0.06*B) ]
ChB(Gam, G) == IF Gam \preceq "9.5" THEN IF G \preceq "500" THEN R("4.8") ELSE IF G \prec "1900" THEN $[ 2400/G ] ELSE $[ 55/sqrt(G) ]
               ELSE IF Gam \preceq "28" THEN IF G \preceq "600" THEN $[ 520/(Gam*sqrt(G)) ] ELSE $[ 21/Gam ] ELSE $[ 15000/(Gam*Gam*sqrt(G)) ]
BcB(Gam, G) == IF Gam \preceq "9.5" THEN $[ 55/sqrt(G) ] ELSE IF Gam \preceq "28" THEN $[ 520/(Gam*sqrt(G)) ] ELSE $[ 15000/(Gam*Gam*sqrt(G)) ]
ChMult(a, B, n, G2) == LET x == a.x IN $[ 1 + (G2 - 1)*(B*(x*(1 - x))**((2 - n)/2) + x**(2 - n)) ]
Chisholm(a, rough) ==
  LET lo == PLo(a)  g2 == PGo(a) // lo  G == Flux(a)  B == ChB(Sqrt(g2), G)
      n == IF rough THEN $[ log((FD(ReLo(a), Rough(a)))/(FD(ReGo(a), Rough(a))))/log((a.mul)/(a.mug)) ] ELSE R("0.25")
      u == a.mug // a.mul
      Bq == IF rough THEN $[ B*(0.5*(1 + u*u + 10**(0 - 600*(Rough(a)))))**((0.25 - n)/0.25) ] ELSE B
  IN lo ** ChMult(a, Bq, n, g2)
Baroczy(a) == LET lo == PLo(a)  g2 == PGo(a) // lo IN lo ** ChMult(a, BcB(Sqrt(g2), Flux(a)), R("0.25"), g2)
Gronnerud(a) == LET Fr == $[ (Flux(a))**2/(G0*(a.D)*(a.rhol)**2) ]  f == IF Fr \succeq "1" THEN R("1") ELSE $[ Fr**0.3 + 0.0055*log(1/Fr)**2 ]  x == a.x
                    d == $[ f*(x + 4*(x**1.8 - x**10*sqrt(f))) ] IN $[ (PLo(a))*(1 + d*((a.rhol)/(a.rhog)/((a.mul)/(a.mug))**0.25 - 1)) ]
Theissing(a) == LET x == a.x  lo == PLo(a)  go == PGo(a) IN IF REq(x, "0") THEN lo ELSE IF REq(x, "1") THEN go ELSE
  LET l == PL(a)  gg == PG(a)  q == a.rhol // a.rhog  n1 == $[ log(l/lo)/log(1 - x) ]  n2 == $[ log(gg/go)/log(x) ]  r == $[ (gg/l)**0.1 ]  n == $[ (n1 + n2*r)/(1 + r) ]
      e == $[ 3 - 2*(2*sqrt(q)/(1 + q))**(0.7/n) ]
  IN $[ (lo**(1/(n*e))*(1 - x)**(1/e) + go**(1/(n*e))*x**(1/e))**(n*e) ]
Xtt(a) == $[ ((1 - (a.x))/(a.x))**0.9*((a.rhog)/(a.rhol))**0.5*((a.mul)/(a.mug))**0.1 ]
KM(a) ==
  LET l == ReL(a)  v == ReG(a)  q == a.rhol // a.rhog  Su == $[ (a.rhog)*(a.sigma)*(a.D)/(a.mug)**2 ]  z == ReLo(a)
      pl == Drop(Blas(l), $[ (1 - (a.x))*(Flux(a)) ], a.rhol, a)  pg == Drop(Blas(v), a.x ** Flux(a), a.rhog, a)
      C == IF l \prec "2000" THEN IF v \prec "2000" THEN $[ 3.5e-5*z**0.44*Su**0.5*q**0.48 ] ELSE $[ 0.0015*z**0.59*Su**0.19*q**0.36 ]
           ELSE IF v \prec "2000" THEN $[ 8.7e-4*z**0.17*Su**0.5*q**0.14 ] ELSE $[ 0.39*z**0.03*Su**0.1*q**0.35 ]
  IN Mult(C, pl, pg)
LM(a) ==
  LET c == Opt(a, "Re_c", R("2000"))  l == ReL(a)  v == ReG(a)
      pl == Drop(LMf(l, c), $[ (1 - (a.x))*(Flux(a)) ], a.rhol, a)  pg == Drop(LMf(v, c), a.x ** Flux(a), a.rhog, a)
      C == IF l \prec c THEN IF v \prec c THEN R("5") ELSE R("12") ELSE IF v \prec c THEN R("10") ELSE R("20")
  IN IF REq(a.x, "0") THEN pl ELSE IF REq(a.x, "1") THEN pg ELSE Mult(C, pl, pg)
WCL(a) == LET pl == PL(a)  pg == PG(a)  X == Sqrt(pl // pg) IN
  IF Flux(a) \succeq "200" THEN $[ pg*(1 + 9.397*X**0.62 + 0.564*X**2.45) ]
  ELSE LET C == $[ 4.566e-6*X**0.128*(ReLo(a))**0.938*((a.rhol)/(a.rhog))**(0-2.15)*((a.mul)/(a.mug))**5.1 ] IN $[ pg*(1 + C*X + X*X) ]
XuFang(a) == LET x == a.x  lo == PLo(a)  Y2 == PGo(a) // lo IN $[ lo*(Y2*x**3 + (1 - x**2.59)**0.632*(1 + 2*x**1.17*(Y2 - 1) + 0.00775*x**(0-0.475)*(FrH(a))**0.535*(WeH(a))**0.188)) ]
ZW(a) == LET x == a.x  p == a.P // a.Pc IN $[ (PLo(a))*((1 - x)**2 + 2.87*x*x/p + 1.68*x**0.8*(1 - x)**0.25*p**(0-1.64)) ]
Bankoff(a) == LET x == a.x  q == a.rhog // a.rhol  y == $[ (0.71 + 2.35*q)/(1 + (1 - x)/x*q) ] IN $[ (PLo(a))*(1/(1 - x)*(1 - y*(1 - q))**(3/7)*(1 + x*(1/q - 1)))**1.75 ]
YF(a) == $[ (PL(a))*(18.65*sqrt((a.rhog)/(a.rhol))*(1 - (a.x))/(a.x)*(ReG(a))**0.1/sqrt(ReL(a)))**(0-1.9) ]
Tran(a) == LET x == a.x  lo == PLo(a)  g2 == PGo(a) // lo IN $[ lo*(1 + (4.3*g2 - 1)*((Co(a))*(x*(1 - x))**0.875 + x**1.75)) ]
HK(a) == LET pl == PL(a)  pg == PG(a)  X == Sqrt(pl // pg) IN Mult($[ 0.227*(ReLo(a))**0.452*X**(0-0.32)*(Co(a))**(0-0.82) ], pl, pg)
ZHM(a, k) == Mult($[ 21*(1 - exp(0 - k/(Co(a)))) ], PL(a), PG(a))
MH(a) == Mult($[ 21*(1 - exp(0 - 319*(a.D))) ], PL(a), PG(a))
MSH(a) == LET x == a.x  lo == PLo(a)  go == PGo(a) IN $[ (lo + 2*(go - lo)*x)*(1 - x)**(1/3) + go*x**3 ]
LP(a) == $[ 0.83*(Flux(a))**1.4*(a.sigma)**0.4*(Len0(a))/((a.D)**1.2*(RhoH(a))**0.866) ]
Friction(law, a) ==
  CASE law = "Friedel" -> Friedel(a) [] law = "Chen_Friedel" -> Friedel(a) ** Omega(a) [] law = "Chisholm" -> Chisholm(a, FALSE) [] law = "Chisholm rough" -> Chisholm(a, TRUE)
    [] law = "Baroczy_Chisholm" -> Baroczy(a) [] law = "Gronnerud" -> Gronnerud(a) [] law = "Theissing" -> Theissing(a) [] law = "Jung_Radermacher" -> $[ (PLo(a))*12.82*(Xtt(a))**(0-1.47)*(1 - (a.x))**1.8 ]
    [] law = "Kim_Mudawar" -> KM(a) [] law = "Lockhart_Martinelli" -> LM(a) [] law = "Wang_Chiang_Lu" -> WCL(a) [] law = "Xu_Fang" -> XuFang(a) [] law = "Zhang_Webb" -> ZW(a) [] law = "Bankoff" -> Bankoff(a)
    [] law = "Yu_France" -> YF(a) [] law = "Tran" -> Tran(a) [] law = "Hwang_Kim" -> HK(a) [] law = "Zhang_Hibiki_Mishima" -> ZHM(a, R("0.142")) [] law = "Zhang_Hibiki_Mishima adiabatic gas" -> ZHM(a, R("0.674"))
    [] law = "Zhang_Hibiki_Mishima flow boiling" -> ZHM(a, R("0.358")) [] law = "Mishima_Hibiki" -> MH(a) [] law = "Muller_Steinhagen_Heck" -> MSH(a) [] law = "Lombardi_Pedrocchi" -> LP(a)
\* ---- Beggs and Brill
Coef(r) == CASE r = 0 -> <<"0.98", "0.4846", "0.0868">> [] r = 2 -> <<"0.845", "0.5351", "0.0173">> [] r = 3 -> <<"1.065", "0.5824", "0.0609">>
Up(r) == IF r = 0 THEN <<"0.011", "-3.768", "3.539", "-1.614">> ELSE <<"2.96", "0.305", "-0.4473", "0.0978">>
Down == <<"4.70", "-0.3692", "0.1244", "-0.5056">>
HoldUp(r, lam, Fr, th, LV) ==
  LET c == Coef(r)  c1 == c[1] c2 == c[2] c3 == c[3]  h0 == RMax(lam, $[ c1*lam**c2/Fr**c3 ])
      k == IF th \succ "0" THEN Up(r) ELSE Down  k1 == k[1] k2 == k[2] k3 == k[3] k4 == k[4]
      C == RMax(R("0"), $[ (1 - lam)*log(k1*lam**k2*LV**k3*Fr**k4) ])  s == $[ sin(1.8*th) ]
  IN IF REq(th, "0") \/ (th \succ "0" /\ r = 3) THEN h0 ELSE $[ h0*(1 + C*(s - s**3/3)) ]
BBRegime(lam, Fr) ==
  LET L1 == $[ 316*lam**0.302 ]  L2 == $[ 0.0009252*lam**(0-2.4684) ]  L3 == $[ 0.1*lam**(0-1.4516) ]  L4 == $[ 0.5*lam**(0-6.738) ] IN
  IF lam \prec "0.01" THEN IF Fr \prec L1 THEN 0 ELSE 3
  ELSE IF Fr \prec L2 THEN 0 ELSE IF Fr \preceq L3 THEN 1 ELSE IF Fr \prec (IF lam \prec "0.4" THEN L1 ELSE L4) THEN 2 ELSE 3
BB(a) ==
  LET g == Opt(a, "g", G0)  G == Flux(a)  Vsg == $[ (a.x)*G/(a.rhog) ]  Vsl == $[ (1 - (a.x))*G/(a.rhol) ]  Vm == Vsg ++ Vsl  Fr == $[ Vm*Vm/(g*(a.D)) ]  lam == Vsl // Vm
      th == $[ (a.angle)*pi/180 ]  LV == $[ Vsl*((a.rhol)/(g*(a.sigma)))**0.25 ]  r == BBRegime(lam, Fr)
      L2 == $[ 0.0009252*lam**(0-2.4684) ]  L3 == $[ 0.1*lam**(0-1.4516) ]
      Hl == IF r = 1 THEN LET w == $[ (L3 - Fr)/(L3 - L2) ]  ha == HoldUp(0, lam, Fr, th, LV)  hb == HoldUp(2, lam, Fr, th, LV) IN $[ w*ha + (1 - w)*hb ] ELSE HoldUp(r, lam, Fr, th, LV)
      rs == $[ (a.rhol)*Hl + (a.rhog)*(1 - Hl) ]  rm == $[ (a.rhol)*lam + (a.rhog)*(1 - lam) ]  mm == $[ (a.mul)*lam + (a.mug)*(1 - lam) ]
      y == $[ lam/(Hl*Hl) ]  ln == Ln(y)
      S == RMin(R("7"), IF y \succ "1" /\ y \prec "1.2" THEN $[ log(2.2*y - 1.2) ] ELSE $[ ln/(0 - 0.0523 + 3.182*ln - 0.8725*ln**2 + 0.01853*ln**4) ])
      Rm == $[ rm*Vm*(a.D)/mm ]  f == $[ (FD(Rm, Rough(a)))*exp(S) ]
  IN [ele |-> $[ g*sin(th)*rs*(Len0(a)) ], fric |-> $[ f*(Len0(a))/(a.D)*rm*Vm*Vm/2 ], ek |-> $[ Vsg*Vm*rs/(Opt(a, "P", R("101325"))) ], regime |-> r, lam |-> lam, holdup |-> Hl]
\* ---- dispatch
Order == <<"Zhang_Webb", "Lockhart_Martinelli", "Bankoff", "Baroczy_Chisholm", "Chisholm", "Gronnerud", "Jung_Radermacher", "Muller_Steinhagen_Heck", "Theissing", "Wang_Chiang_Lu", "Yu_France", "Kim_Mudawar", "Friedel", "Hwang_Kim",
           "Mishima_Hibiki", "Tran", "Xu_Fang", "Zhang_Hibiki_Mishima", "Chen_Friedel", "Lombardi_Pedrocchi", "Chisholm rough", "Zhang_Hibiki_Mishima adiabatic gas", "Zhang_Hibiki_Mishima flow boiling", "Beggs-Brill">>
Tensioned == {"Kim_Mudawar", "Friedel", "Hwang_Kim", "Mishima_Hibiki", "Tran", "Xu_Fang", "Zhang_Hibiki_Mishima", "Chen_Friedel", "Zhang_Hibiki_Mishima adiabatic gas", "Zhang_Hibiki_Mishima flow boiling"}
Needs(law) == CASE law = "Zhang_Webb" -> {"mul", "P", "Pc"} [] law = "Lombardi_Pedrocchi" -> {"rhog", "sigma"} [] law = "Beggs-Brill" -> {"rhog", "mul", "mug", "sigma", "P", "angle"}
                [] law \in Tensioned -> {"rhog", "mul", "mug", "sigma"} [] OTHER -> {"rhog", "mul", "mug"}
Listed(given) == SelectSeq(Order, LAMBDA l : Needs(l) \subseteq given)
Default(given) == IF {"rhog", "mul", "mug", "sigma"} \subseteq given THEN "Kim_Mudawar" ELSE IF {"rhog", "mul", "mug"} \subseteq given THEN "Chisholm" ELSE IF {"mul", "P", "Pc"} \subseteq given THEN "Zhang_Webb"
                  ELSE IF {"rhog", "sigma"} \subseteq given THEN "Lombardi_Pedrocchi" ELSE ""
\* ---- acceleration and gravity
Mom(x, al, rl, rg) == $[ (1 - x)**2/(rl*(1 - al)) + x*x/(rg*al) ]
\* ---- flow pattern maps
TA == <<"-2.4791105294648372", "-2.4791105294648372", "-2.4791105294648372", "-2.4791105294648372", "0.14360803483759585", "1.7199938263676038", "1.7199938263676038", "1.7199938263676038", "1.7199938263676038">>
CA == <<"0.21299880246561081", "0.16299733301915248", "-0.042340970712679615", "-1.9967836909384598", "-2.9917366639619414">>
TC == <<"-1.8323873272724698", "-1.8323873272724698", "-1.8323873272724698", "-1.8323873272724698", "-0.15428198203334137", "1.7031193462360779", "1.7031193462360779", "1.7031193462360779", "1.7031193462360779">>
CC == <<"0.2827776229531682", "0.6207113329042158", "1.0609541626742232", "0.44917638072891825", "0.014664597632360495">>
TD == <<"0.2532652936901574", "0.2532652936901574", "0.2532652936901574", "0.2532652936901574", "3.5567847823070253", "3.5567847823070253", "3.5567847823070253", "3.5567847823070253">>
CD == <<"0.09054274779541564", "-0.05102629221303253", "-0.23907463153703945", "-0.7757156285450911">>
Line(t, c, X) == LET l == Log10(X)  v == BSpl(t, c, 3, l) IN $[ 10**v ]
TaitelDukler(a) ==
  LET th == $[ (a.angle)*pi/180 ]  g == $[ (Opt(a, "g", G0))*cos(th) ]  d == $[ (a.rhol) - (a.rhog) ]  vl == $[ (1 - (a.x))*(Flux(a))/(a.rhol) ]  vg == $[ (a.x)*(Flux(a))/(a.rhog) ]
      pl == PL(a)  pg == PG(a)
  IN [X |-> Sqrt(pl // pg), F |-> $[ sqrt((a.rhog)/d)*vg/sqrt((a.D)*g) ], T |-> $[ sqrt(pl/(d*g)) ], K |-> $[ sqrt((a.rhog)*vg*vg*vl*(a.rhol)/(d*g*(a.mul))) ]]
TDRegime(X, T, F, K) == IF F \succeq Line(TA, CA, X) THEN IF X \preceq "1.7917" THEN "annular" ELSE IF T \succeq Line(TD, CD, X) THEN "bubbly" ELSE "intermittent"
                        ELSE IF K \succeq Line(TC, CC, X) THEN "stratified wavy" ELSE "stratified smooth"
MVs(a) == [l |-> $[ (1 - (a.x))*(Flux(a))/(a.rhol)/0.3048 ], g |-> $[ (a.x)*(Flux(a))/(a.rhog)/0.3048 ]]
MX(a) == $[ ((a.rhog)/1.294292)**0.333*((a.rhol)*0.0724/(999.552*(a.sigma)))**0.25*((a.mug)*1.8e5)**0.2 ]
MY(a) == $[ ((a.rhol)*0.0724/(999.552*(a.sigma)))**0.25*((a.mul)*1e3)**0.2 ]
M1345(v) == IF v \preceq "0.1" THEN $[ 14*(v/0.1)**(0-0.368) ] ELSE IF v \preceq "0.2" THEN $[ 14*(v/0.1)**(0-0.415) ] ELSE IF v \preceq "1.15" THEN $[ 10.5*(v/0.2)**(0-0.816) ] ELSE IF v \preceq "4.8" THEN R("2.5") ELSE $[ 2.5*(v/4.8)**0.248 ]
M456(v) == IF v \preceq "0.1" THEN $[ 70*(v/0.01)**(0-0.0675) ] ELSE IF v \preceq "0.3" THEN $[ 60*(v/0.1)**(0-0.415) ] ELSE IF v \preceq "0.56" THEN $[ 38*(v/0.3)**0.0813 ] ELSE IF v \preceq "1" THEN $[ 40*(v/0.56)**0.385 ]
           ELSE IF v \preceq "2.5" THEN $[ 50*v**0.756 ] ELSE $[ 100*(v/2.5)**0.463 ]
Mandhane(l, v, X1, Y1) ==
  IF l \prec $[ 14*Y1 ] THEN
     IF v \preceq $[ (M1345(l))*X1 ] THEN IF l \succeq $[ 0.5/Y1 ] THEN "elongated bubble" ELSE "stratified"
     ELSE IF v \preceq $[ (M456(l))*X1 ] THEN IF l \succ $[ 0.3*Y1 ] THEN "slug" ELSE "wave" ELSE "annular mist"
  ELSE IF v \preceq $[ 230*(l/14)**0.206*X1 ] THEN "dispersed bubble" ELSE "annular mist"
=============================================================================
