----------------------------- MODULE AtmosTrace -----------------------------
EXTENDS TraceBase, Atmos
MyInit(e) == [n |-> 0]
C(x, y) == CloseA(x, y, "1e-10", "0")
Std(a, o) ==
  LET T0 == StdT(a.Z)  dT == Get(a, "dT")  T == IF IsNum(dT) THEN T0 ++ dT ELSE T0  P == StdP(a.Z)  h == Geopotential(a.Z)  k == Layer(h) IN
  [ Temperature |-> C(o.T, T), Pressure |-> C(o.P, P), Density |-> C(o.rho, Density(T, P)), SpeedOfSound |-> C(o.v_sonic, Sonic(T)),
    Viscosity |-> C(o.mu, Viscosity(T)), Conductivity |-> C(o.k, Conductivity(T)), Gravity |-> C(o.g, Gravity(a.Z)),
    Height |-> CloseA(o.H, h, "1e-12", "0") /\ REq(o.Z, a.Z), Offset |-> REq(o.dT, IF IsNum(dT) THEN dT ELSE "0"),
    Layers |-> REq(o.T_layer, LET b == Bases[k][1] IN IF Abs(b -- (o.T_layer)) \prec "1e-9" THEN o.T_layer ELSE b) /\ REq(o.T_increase, Grad[k]) /\ C(o.P_layer, Bases[k][2]) /\ REq(o.H_layer, Height[k]) /\ CloseA(o.H_above_layer, h -- Height[k], "1e-9", "1e-8") ]
Rho(e, h) == LET r == e.rho0  s == e.scale IN
  CASE e.kind = "constant" -> r [] e.kind = "exponential" -> $[ r*exp(-h/s) ] [] e.kind = "linear" -> $[ r*(1 - h/s) ] [] OTHER -> Density(StdT(h), StdP(h))
Path(e, a) == LET r0 == Rho(e, "0")  Rp == IF Has(a, "R_planet") THEN a.R_planet ELSE "6.371229E6"  RI == IF Has(a, "RI") THEN a.RI ELSE "1.000276"  H == IF Has(a, "H_max") THEN a.H_max ELSE "86400"
                  F(h) == PathDensity(Rho(e, h), r0, h, a.angle, Rp, RI)
                  \* the standard atmosphere is piecewise: split where its layers end
                  Z(i) == LET g == Height[i] IN $[ Earth*g/(Earth - g) ]
                  cuts == IF e.kind = "standard" THEN [i \in 1 .. 9 |-> IF i = 1 THEN R("0") ELSE IF i = 9 THEN R(H) ELSE RMin(H, Z(i))] ELSE <<R("0"), R(H)>>
              IN RSum([i \in 1 .. Len(cuts) - 1 |-> IF cuts[i] \prec cuts[i + 1] THEN Quad([x \in Reals |-> F(x)], cuts[i], cuts[i + 1]) ELSE R("0")])
NA == R("6.02214076e23")
GasR == R("8.31446261815324")
D(x, y) == LET m == $[ y*1e6 ] IN CloseA(x, m, "3e-9", "0")
M(a, k, d) == IF Has(a, k) THEN a[k] ELSE R(d)
Model(a, o) ==
  LET z == a.Z
      n == Msis(Place(M(a, "day", "0"), M(a, "seconds", "0"), z ** "1e-3", M(a, "latitude", "0"), M(a, "longitude", "0"), M(a, "f107", "150"), M(a, "f107_avg", "150"),
                IF Has(a, "geomagnetic_disturbance_indices") THEN a.geomagnetic_disturbance_indices ELSE <<>>))
      ds == <<o.N2_density, o.O2_density, o.Ar_density, o.He_density, o.O_density, o.H_density, o.N_density>>
      mw == <<"28.0134", "31.9988", "39.948", "4.002602", "15.9994", "1.00794", "14.0067">>
      tot == RSum(ds)  T == o.T
  IN [ Nitrogen |-> D(o.N2_density, n.N2), Oxygen |-> D(o.O2_density, n.O2), Argon |-> D(o.Ar_density, n.Ar), Helium |-> D(o.He_density, n.He), AtomicOxygen |-> D(o.O_density, n.O),
       Hydrogen |-> D(o.H_density, n.H), AtomicNitrogen |-> D(o.N_density, n.N), AnomalousOxygen |-> D(o.O_anomalous_density, n.Oa),
       Exosphere |-> CloseA(o.T_exospheric, n.Tinf, "1e-9", "0"), Temperature |-> CloseA(o.T, n.T, "1e-9", "0"),
       Mass |-> CloseA(o.rho, ("1000") ** Tot(n), "3e-9", "0"),
       IdealGas |-> CloseA(o.P, $[ tot*T*GasR/NA ], "1e-9", "0"),
       MassOfParticles |-> CloseA(o.rho_calculated, RSum([i \in 1 .. 7 |-> (ds[i]) ** mw[i]]) // ("1000" ** NA), "1e-9", "0"),
       Particles |-> CloseA(o.particle_density, tot, "1e-12", "0"),
       Fractions |-> Len(o.zs) = 7 /\ (\A i \in 1 .. 7 : CloseA(o.zs[i], (ds[i]) // tot, "1e-12", "0")) /\ CloseA(RSum(o.zs), "1", "1e-12", "0"),
       Components |-> Same(o.components, <<"N2", "O2", "Ar", "He", "O", "H", "N">>),
       Inputs |-> REq(o.Z, z) /\ REq(o.latitude, M(a, "latitude", "0")) /\ REq(o.longitude, M(a, "longitude", "0")) /\ REq(o.day, M(a, "day", "0")) /\ REq(o.seconds, M(a, "seconds", "0")) /\ REq(o.f107, M(a, "f107", "150")) /\ REq(o.f107_avg, M(a, "f107_avg", "150")) ]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  IF IsErr(o) THEN Stateless([Answers |-> FALSE]) ELSE
  CASE e.op = "std" -> Stateless(Std(a, o))
    [] e.op = "gravity" -> Stateless([Gravity |-> C(o, Gravity(a.Z))])
    [] e.op = "density" -> Stateless([Density |-> C(o, Density(a.T, a.P))])
    [] e.op = "sonic" -> Stateless([SpeedOfSound |-> C(o, Sonic(a.T))])
    [] e.op = "viscosity" -> Stateless([Viscosity |-> C(o, Viscosity(a.T))])
    [] e.op = "conductivity" -> Stateless([Conductivity |-> C(o, Conductivity(a.T))])
    [] e.op = "drop" -> Stateless([PressureIntegral |-> CloseA(o, PressureIntegral(a.T1, a.P1, a.dH), "1e-6", "1e-6")])
    [] e.op = "path" -> Stateless([AirMass |-> CloseA(o, Path(e, a), "1e-6", "0")])
    [] e.op = "msis" -> Stateless(Model(a, o))
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
