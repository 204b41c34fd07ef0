-------------------------------- MODULE Meter --------------------------------
(* Differential pressure flow meters: diameter ratio, discharge coefficient,   *)
(* expansibility, mass flow and permanent pressure drop.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, MeterData
Orifices == {"ISO 5167 orifice", "ISO 15377 eccentric orifice", "ISO 15377 quarter-circle orifice", "ISO 15377 conical orifice", "Miller orifice", "Miller eccentric orifice", "Miller segmental orifice",
  "Miller conical orifice", "Miller quarter circle orifice", "Hollingshead orifice", "orifice", "eccentric orifice", "conical orifice", "segmental orifice", "quarter circle orifice"}
Nozzles == {"long radius nozzle", "ISA 1932 nozzle", "venturi nozzle"}
Tubes == {"as cast convergent venturi tube", "machined convergent venturi tube", "rough welded convergent venturi tube", "Hollingshead venturi smooth", "Hollingshead venturi sharp"}
Cones == {"cone meter", "Hollingshead v cone"}
Wedges == {"wedge meter", "Hollingshead wedge"}
Meters == Orifices \union Nozzles \union Tubes \union Cones \union Wedges \union {"unspecified meter"}
\* a generic name stands for one method
Alias(t) == CASE t = "orifice" -> "ISO 5167 orifice" [] t = "eccentric orifice" -> "ISO 15377 eccentric orifice" [] t = "conical orifice" -> "ISO 15377 conical orifice"
              [] t = "quarter circle orifice" -> "ISO 15377 quarter-circle orifice" [] t = "segmental orifice" -> "Miller segmental orifice" [] OTHER -> t
ConeRatio(D, Dc) == $[ sqrt(1 - (Dc/D)**2) ]
WedgeRatio(D, H) == LET h == $[ H/D ] IN $[ sqrt((acos(1 - 2*h) - 2*(1 - 2*h)*sqrt(h - h*h))/pi) ]
Ratio(t, D, D2) == IF t \in Cones THEN ConeRatio(D, D2) ELSE IF t \in Wedges THEN WedgeRatio(D, D2) ELSE $[ D2/D ]
Reynolds(D, m, mu) == $[ 4*m/(pi*D*mu) ]
\* expansibility
OrificeEps(b, r, k) == $[ 1 - (0.351 + 0.256*b**4 + 0.93*b**8)*(1 - r**(1/k)) ]
OrificeEps89(b, r, k) == $[ 1 - (0.41 + 0.35*b**4)*(1 - r)/k ]
NozzleEps(b, r, k) ==
  IF REq(r, R("1")) THEN R("1")
  ELSE LET t == IF REq(k, R("1")) THEN $[ 0 - log(r)/(1 - r) ] ELSE $[ k/(k - 1)*(1 - r**((k - 1)/k))/(1 - r) ] IN $[ sqrt(r**(2/k)*t*(1 - b**4)/(1 - b**4*r**(2/k))) ]
ConeEps(b, r, k) == $[ 1 - (0.649 + 0.696*b**4)*(1 - r)/k ]
\* discharge coefficients
RHG(D, b, Re, taps) ==
  LET L1 == CASE taps = "corner" -> R("0") [] taps = "flange" -> $[ 0.0254/D ] [] OTHER -> R("1")
      L2 == CASE taps = "corner" -> R("0") [] taps = "flange" -> $[ 0.0254/D ] [] OTHER -> R("0.47")
      A == $[ (19000*b/Re)**0.8 ]
      M2 == $[ 2*L2/(1 - b) ]
      low == $[ log10(3700/Re) if Re < 3700 else 0 ]
      c == $[ (1000000/Re)**0.3 ]
      d == $[ 22.7 - 4700*Re/1000000 ]
      base == $[ 0.5961 + 0.0261*b**2 - 0.216*b**8 + 0.000521*(1000000*b/Re)**0.7 + (0.0188 + 0.0063*A)*b**3.5*(c if c >= d else d) ]
      up == $[ (0.043 + 0.08*exp(0 - 10*L1) - 0.123*exp(0 - 7*L1))*(1 - 0.11*A)*b**4/(1 - b**4) ]
      down == IF REq(M2, R("0")) THEN R("0") ELSE $[ 0.031*(M2 - 0.8*M2**1.1)*b**1.3*(1 + 8*low) ]
      small == $[ 0.011*(0.75 - b)*(2.8 - D/0.0254) if D < 0.07112 else 0 ]
  IN $[ base + up - down + small ]
\* C = C1 + C2 b^2.1 + C3 b^8 + C4 b^4/(1 - b^4) + C5 b^3 + q/Re^0.75
Form(c, b) == $[ R(c[1]) + R(c[2])*b**2.1 + R(c[3])*b**8 + R(c[4])*b**4/(1 - b**4) + R(c[5])*b**3 ]
Bend(q, b) == $[ R(q[1]) + R(q[2])*b + R(q[3])*b**2 + R(q[4])*b**3 + R(q[5])*b**4 ]
Ecc(taps, pos, small) == CASE taps = "flange" /\ pos = "180 degree" /\ small -> <<<<"0.5917", "0.3061", "0.3406", "-0.1019", "-0.2715">>, <<"7.3", "-15.7", "170.8", "-399.7", "332.2">>>>
    [] taps = "flange" /\ pos = "180 degree" /\ ~small -> <<<<"0.6016", "0.3312", "-1.5581", "0.6510", "-0.7308">>, <<"-139.7", "1328.8", "-4228.2", "5691.9", "-2710.4">>>>
    [] taps = "flange" /\ pos = "90 degree" /\ small -> <<<<"0.5866", "0.3917", "0.7586", "-0.2273", "-0.3343">>, <<"69.1", "-469.4", "1245.6", "-1287.5", "486.2">>>>
    [] taps = "flange" /\ pos = "90 degree" /\ ~small -> <<<<"0.6037", "0.1598", "-0.2918", "0.0244", "-0.0790">>, <<"-103.2", "898.3", "-2557.3", "2977.0", "-1131.3">>>>
    [] taps = "vena contracta" /\ pos = "180 degree" /\ small -> <<<<"0.5925", "0.3380", "0.4016", "-0.1046", "-0.3212">>, <<"23.3", "-207.0", "821.5", "-1388.6", "900.3">>>>
    [] taps = "vena contracta" /\ pos = "180 degree" /\ ~small -> <<<<"0.5922", "0.3932", "0.3412", "-0.0569", "-0.4628">>, <<"55.7", "-471.4", "1721.8", "-2722.6", "1569.4">>>>
    [] taps = "vena contracta" /\ pos = "90 degree" /\ small -> <<<<"0.5875", "0.3813", "0.6898", "-0.1963", "-0.3366">>, <<"-69.3", "556.9", "-1332.2", "1303.7", "-394.8">>>>
    [] taps = "vena contracta" /\ pos = "90 degree" /\ ~small -> <<<<"0.5949", "0.4078", "0.0547", "0.0955", "-0.5608">>, <<"52.8", "-434.2", "1571.2", "-2460.9", "1420.2">>>>
MillerTaps(s) == CASE s = "orifice" -> {"corner", "flange", "D and D/2", "pipe"} [] s \in {"eccentric orifice", "segmental orifice"} -> {"flange", "vena contracta"} [] OTHER -> {"corner", "flange"}
\* s: the kind of orifice, without the word Miller
Miller(s, D, b, Re, taps, pos) ==
  LET mm == $[ 1000*D ]  small == D \prec "0.1" IN
  CASE s = "orifice" ->
         LET base == Form(<<"0.5959", "0.0312", "-0.184", "0", "0">>, b)
             g == $[ b**4/(1 - b**4) ]
             inf == CASE taps = "corner" -> base
                      [] taps = "flange" -> IF mm \succeq "58.4" THEN $[ base + 2.286*g/mm - 0.856*b**3/mm ] ELSE $[ base + 0.039*g - 0.856*b**3/mm ]
                      [] taps = "D and D/2" -> $[ base + 0.039*g - 0.01584 ]
                      [] taps = "pipe" -> Form(<<"0.5959", "0.461", "0.48", "0.039", "0">>, b)
         IN $[ inf + 91.706*b**2.5/Re**0.75 ]
    [] s = "eccentric orifice" -> LET t == Ecc(taps, pos, small) IN $[ Form(t[1], b) + Bend(t[2], b)/Re**0.75 ]
    [] s = "segmental orifice" -> Form(IF ~small THEN <<"0.6276", "0.0828", "0.2739", "-0.0934", "-0.1132">> ELSE IF taps = "flange" THEN <<"0.6284", "0.1462", "-0.8464", "0.2603", "-0.2886">>
                                       ELSE <<"0.6261", "0.1851", "-0.2879", "0.1170", "-0.2845">>, b)
    [] s = "conical orifice" -> $[ 0.734 if 250*b <= Re and Re <= 500*b else 0.73 ]
    [] s = "quarter circle orifice" -> Form(<<"0.7746", "-0.1334", "1.4098", "0.0675", "0.3865">>, b)
Kind(t) == CASE t = "Miller orifice" -> "orifice" [] t = "Miller eccentric orifice" -> "eccentric orifice" [] t = "Miller segmental orifice" -> "segmental orifice" [] t = "Miller conical orifice" -> "conical orifice"
             [] t = "Miller quarter circle orifice" -> "quarter circle orifice" [] OTHER -> t
EccIso(b) == $[ 0.9355 - 1.6889*b + 3.0428*b**2 - 1.7989*b**3 ]
QuarterIso(b) == $[ 0.73823 + 0.3309*b - 1.16158*b**2 + 1.5084*b**3 ]
LongRadius(b, Re) == $[ 0.9965 - 0.00653*sqrt(1000000*b/Re) ]
Isa(b, Re) == $[ 0.99 - 0.2262*b**4.1 - (0.00175*b**2 - 0.0033*b**4.15)*(1000000/Re)**1.15 ]
VenturiNozzle(b) == $[ 0.9858 - 0.196*b**4.5 ]
WedgeIso(b) == $[ 0.77 - 0.09*b ]
WedgeMiller(D, b) == $[ 0.7883 + 0.107*(1 - b*b) if D <= 0.7*0.0254 else (0.6143 + 0.718*(1 - b*b) if D <= 1.4*0.0254 else 0.5433 + 0.2453*(1 - b*b)) ]
\* linear in the table, continued outside along its first and last step
ISorted(x, xs, ys) == LET n == Len(xs)
                          i == IF x \prec xs[2] THEN 1 ELSE CHOOSE j \in 1 .. n - 1 : x \succeq xs[j] /\ (j = n - 1 \/ x \prec xs[j + 1])
                          x1 == xs[i]  y1 == ys[i]  x2 == xs[i + 1]  y2 == ys[i + 1]
                      IN $[ y1 + (x - x1)*(y2 - y1)/(x2 - x1) ]
Coef(t0, D, D2, Re, taps, pos) ==
  LET t == Alias(t0)  b == Ratio(t0, D, D2)  l == $[ log(Re) ] IN
  CASE t = "ISO 5167 orifice" -> RHG(D, b, Re, taps) [] t = "ISO 15377 eccentric orifice" -> EccIso(b) [] t = "ISO 15377 quarter-circle orifice" -> QuarterIso(b) [] t = "ISO 15377 conical orifice" -> R("0.734")
    [] t \in {"Miller orifice", "Miller eccentric orifice", "Miller segmental orifice", "Miller conical orifice", "Miller quarter circle orifice"} -> Miller(Kind(t), D, b, Re, taps, pos)
    [] t = "long radius nozzle" -> LongRadius(b, Re) [] t = "ISA 1932 nozzle" -> Isa(b, Re) [] t = "venturi nozzle" -> VenturiNozzle(b)
    [] t = "as cast convergent venturi tube" -> R("0.984") [] t = "machined convergent venturi tube" -> R("0.995") [] t = "rough welded convergent venturi tube" -> R("0.985")
    [] t = "cone meter" -> R("0.82") [] t = "wedge meter" -> WedgeIso(b)
    [] t = "Hollingshead orifice" -> BSpl2(M_orifice_std_Hollingshead_tck, b, l) [] t = "Hollingshead v cone" -> BSpl2(M_cone_Hollingshead_tck, b, l) [] t = "Hollingshead wedge" -> BSpl2(M_wedge_Hollingshead_tck, b, l)
    [] t = "Hollingshead venturi smooth" -> ISorted(l, M_venturi_logRes_Hollingshead, M_venturi_smooth_Cs_Hollingshead) [] t = "Hollingshead venturi sharp" -> ISorted(l, M_venturi_logRes_Hollingshead, M_venturi_sharp_Cs_Hollingshead)
Eps(t0, D, D2, r, k) ==
  LET t == Alias(t0)  b == Ratio(t0, D, D2) IN
  CASE t \in {"ISO 15377 conical orifice", "Miller conical orifice"} -> $[ 0.5*(OrificeEps(b, r, k) + NozzleEps(b, r, k)) ]
    [] t \in Orifices \union {"unspecified meter"} -> OrificeEps(b, r, k)
    [] t \in Cones -> ConeEps(b, r, k)
    [] OTHER -> NozzleEps(b, r, k)
Flow(D, b, dP, rho, C, eps) == $[ pi/4*(b*D)**2*C*eps*sqrt(2*rho*dP/(1 - b**4)) ]
\* permanent loss
Root(b, C) == $[ sqrt(1 - b**4*(1 - C*C)) ]
LossOrifice(b, C, dP) == $[ (Root(b, C) - C*b*b)/(Root(b, C) + C*b*b)*dP ]
LossVenturi(D, b, dP) == LET hi == Interp(b, M_venturi_tube_betas, M_venturi_tube_dP_high)  lo == Interp(b, M_venturi_tube_betas, M_venturi_tube_dP_low)
                         IN $[ dP*(hi if D <= 0.065 else (lo if D >= 0.5 else hi + (D - 0.065)*(lo - hi)/0.435)) ]
Loss(t, D, D2, C, dP) ==
  LET b == Ratio(t, D, D2) IN
  CASE t \in Orifices \union {"long radius nozzle", "ISA 1932 nozzle"} -> LossOrifice(b, C, dP) [] t \in Tubes -> LossVenturi(D, b, dP)
    [] t \in Cones -> $[ (1.09 - 0.813*b)*dP ] [] t \in Wedges -> $[ (1.09 - 0.79*b)*dP ]
NeedsC(t) == t \in Orifices \union {"long radius nozzle", "ISA 1932 nozzle"}
CtoK(b, C) == $[ (Root(b, C)/(C*b*b) - 1)**2 ]
KtoC(b, K) == $[ sqrt((1 - b**4)/((2*sqrt(K) + K)*b**4)) ]
\* wet gas in a venturi tube
Frg(mg, rhog, rhol, D) == $[ 4*mg/(rhog*pi*D*D)/sqrt(9.80665*D)*sqrt(rhog/(rhol - rhog)) ]
Lockhart(mg, ml, rhog, rhol) == $[ ml/mg*sqrt(rhog/rhol) ]
WetC(mg, ml, rhog, rhol, D, b, H) == LET X == Lockhart(mg, ml, rhog, rhol)  s == $[ sqrt(X/0.016) ] IN $[ 1 - 0.0463*exp(0 - 0.05*Frg(mg, rhog, rhol, D)/b**2.5)*(s if s <= 1 else 1) ]
WetLoss(dP, mg, ml, rhog, rhol, D, b, H) == LET X == Lockhart(mg, ml, rhog, rhol)  F == Frg(mg, rhog, rhol, D)
   IN $[ dP*(0.61*exp(0 - 11*rhog/rhol - 0.045*F/H)*(1 - exp(0 - 35*X**0.75*exp(0 - 0.28*F/H))) + 0.0896 + 0.48*b**9) ]
=============================================================================
