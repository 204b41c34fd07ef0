---------------------------- MODULE MeterTrace ----------------------------
EXTENDS TraceBase, Meter
\* Abstract state: the flow found by rating the meter.
MyInit(e) == R("0")
F(o, x) == Stateless([Formula |-> CloseA(o, x, "1e-9", "1e-12")])
Rb(a) == $[ (a.Do)/(a.D) ]
Rp(a) == $[ (a.P2)/(a.P1) ]
Dp(a) == $[ (a.P1) - (a.P2) ]
\* the coefficients a solver has to use: given ones, else the meter's own
CC(e, D2, m) == IF Has(e.a, "C_specified") THEN e.a.C_specified ELSE Coef(e.meter, e.a.D, D2, Reynolds(e.a.D, m, e.a.mu), e.taps, e.tp)
EE(e, D2, P1, P2) == IF Has(e.a, "epsilon_specified") THEN e.a.epsilon_specified ELSE Eps(e.meter, e.a.D, D2, $[ P2/P1 ], e.a.k)
MCalc(e, D2, P1, P2, m) == Flow(e.a.D, Ratio(e.meter, e.a.D, D2), $[ P1 - P2 ], e.a.rho, CC(e, D2, m), EE(e, D2, P1, P2))
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> [st |-> s, bad |-> Broken([Refuses |-> ErrIs(o, "ValueError")])]
    [] e.op = "notimplemented" -> [st |-> s, bad |-> Broken([Refuses |-> ErrIs(o, "NotImplementedError")])]
    [] e.op = "rate" -> [st |-> IF IsNum(o) THEN o ELSE s, bad |-> Broken([Formula |-> IsNum(o) /\ o \succ "0" /\ Close(MCalc(e, a.D2, a.P1, a.P2, o), o, "2e-7")])]
    [] e.op = "sizeD2" -> [st |-> s, bad |-> Broken([Solves |-> IsNum(o) /\ o \succ "0" /\ o \prec a.D /\ Close(MCalc(e, o, a.P1, a.P2, s), s, "1e-5"), RoundTrip |-> e.unique => Close(o, e.want, "1e-5")])]
    [] e.op = "sizeP2" -> [st |-> s, bad |-> Broken([Solves |-> IsNum(o) /\ o \succ "0" /\ o \prec a.P1 /\ Close(MCalc(e, a.D2, a.P1, o, s), s, "1e-5"), RoundTrip |-> e.unique => Close($[ (a.P1) - o ], $[ (a.P1) - (e.want) ], "1e-5")])]
    [] e.op = "sizeP1" -> [st |-> s, bad |-> Broken([Solves |-> IsNum(o) /\ o \succ a.P2 /\ Close(MCalc(e, a.D2, o, a.P2, s), s, "1e-5"), RoundTrip |-> e.unique => Close($[ o - (a.P2) ], $[ (e.want) - (a.P2) ], "1e-5")])]
    [] e.op = "Ceps" -> [st |-> s, bad |-> Broken([Coefficient |-> IsSeq(o) /\ Len(o) = 2 /\ Close(o[1], CC(e, a.D2, a.m), "1e-9"), Expansibility |-> IsSeq(o) /\ Len(o) = 2 /\ Close(o[2], EE(e, a.D2, a.P1, a.P2), "1e-9")])]
    [] e.op = "beta" -> F(o, Ratio(e.meter, a.D, a.D2))
    [] e.op = "discharge" -> F(o, Flow(a.D, Ratio(e.meter, a.D, a.Do), Dp(a), a.rho, a.C, IF Has(a, "expansibility") THEN a.expansibility ELSE R("1")))
    [] e.op = "dP" -> F(o, Loss(e.meter, a.D, a.D2, IF Has(a, "C") THEN a.C ELSE R("1"), Dp(a)))
    [] e.op = "orifice_expansibility" -> F(o, OrificeEps(Rb(a), Rp(a), a.k))
    [] e.op = "orifice_expansibility_1989" -> F(o, OrificeEps89(Rb(a), Rp(a), a.k))
    [] e.op = "nozzle_expansibility" -> F(o, NozzleEps(IF Has(a, "beta") THEN a.beta ELSE Rb(a), Rp(a), a.k))
    [] e.op = "cone_meter_expansibility_Stewart" -> F(o, ConeEps(ConeRatio(a.D, a.Dc), Rp(a), a.k))
    [] e.op = "C_Reader_Harris_Gallagher" -> F(o, RHG(a.D, Rb(a), Reynolds(a.D, a.m, a.mu), IF Has(a, "taps") THEN a.taps ELSE "corner"))
    [] e.op = "C_Miller_1996" -> F(o, Miller(Kind(IF Has(a, "subtype") THEN a.subtype ELSE "orifice"), a.D, Rb(a), Reynolds(a.D, a.m, a.mu), IF Has(a, "taps") THEN a.taps ELSE "corner", IF Has(a, "tap_position") THEN a.tap_position ELSE "180 degree"))
    [] e.op = "C_eccentric_orifice_ISO_15377_1998" -> F(o, EccIso(Rb(a)))
    [] e.op = "C_quarter_circle_orifice_ISO_15377_1998" -> F(o, QuarterIso(Rb(a)))
    [] e.op = "discharge_coefficient_to_K" -> F(o, CtoK(Rb(a), a.C))
    [] e.op = "K_to_discharge_coefficient" -> F(o, KtoC(Rb(a), a.K))
    [] e.op = "dP_orifice" -> F(o, LossOrifice(Rb(a), a.C, Dp(a)))
    [] e.op = "velocity_of_approach_factor" -> F(o, $[ 1/sqrt(1 - Rb(a)**4) ])
    [] e.op = "flow_coefficient" -> F(o, $[ (a.C)/sqrt(1 - Rb(a)**4) ])
    [] e.op = "C_long_radius_nozzle" -> F(o, LongRadius(Rb(a), Reynolds(a.D, a.m, a.mu)))
    [] e.op = "C_ISA_1932_nozzle" -> F(o, Isa(Rb(a), Reynolds(a.D, a.m, a.mu)))
    [] e.op = "C_venturi_nozzle" -> F(o, VenturiNozzle(Rb(a)))
    [] e.op = "dP_venturi_tube" -> F(o, LossVenturi(a.D, Rb(a), Dp(a)))
    [] e.op = "diameter_ratio_cone_meter" -> F(o, ConeRatio(a.D, a.Dc))
    [] e.op = "dP_cone_meter" -> F(o, $[ (1.09 - 0.813*ConeRatio(a.D, a.Dc))*Dp(a) ])
    [] e.op = "diameter_ratio_wedge_meter" -> F(o, WedgeRatio(a.D, a.H))
    [] e.op = "C_wedge_meter_Miller" -> F(o, WedgeMiller(a.D, WedgeRatio(a.D, a.H)))
    [] e.op = "C_wedge_meter_ISO_5167_6_2017" -> F(o, WedgeIso(WedgeRatio(a.D, a.H)))
    [] e.op = "dP_wedge_meter" -> F(o, $[ (1.09 - 0.79*WedgeRatio(a.D, a.H))*Dp(a) ])
    [] e.op = "C_Reader_Harris_Gallagher_wet_venturi_tube" -> F(o, WetC(a.mg, a.ml, a.rhog, a.rhol, a.D, Rb(a), IF Has(a, "H") THEN a.H ELSE R("1")))
    [] e.op = "dP_Reader_Harris_Gallagher_wet_venturi_tube" -> F(o, WetLoss(Dp(a), a.mg, a.ml, a.rhog, a.rhol, a.D, Rb(a), IF Has(a, "H") THEN a.H ELSE R("1")))
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
