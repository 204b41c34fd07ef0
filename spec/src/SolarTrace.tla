----------------------------- MODULE SolarTrace -----------------------------
EXTENDS TraceBase, Solar, Atmos
MyInit(e) == [n |-> 0]
M(a, k, d) == IF Has(a, k) THEN a[k] ELSE R(d)
Angle(x, y, tol) == LET d == Mod($[ x - y + 180 ], "360") IN CloseA(d, "180", "0", tol)
Pos(e, a, o) ==
  LET s == Sun(a.u, DeltaT(e.year, e.month), a.lat, a.lon, M(a, "Z", "0"), $[ (M(a, "P", "101325"))/100 ], $[ (M(a, "T", "298.15")) - 273.15 ], M(a, "refr", "0.5667"))
      t == $[ 1e-6/(1e-9 + SinD(s[2])) ]
      edge == Abs((s[4]) ++ ("0.26667" ++ M(a, "refr", "0.5667"))) \prec "1e-5"
  IN [ Elevation |-> CloseA(o[4], s[4], "0", "1e-6") /\ CloseA(o[2], s[2], "0", "1e-6"), Refracted |-> edge \/ (CloseA(o[3], s[3], "0", "2e-6") /\ CloseA(o[1], s[1], "0", "2e-6")),
       Azimuth |-> Angle(o[5], s[5], t) /\ (o[5] \succeq "0") /\ (o[5] \preceq "360"), EquationOfTime |-> CloseA(o[6], s[6], "0", "1e-4"),
       Complements |-> CloseA((o[1]) ++ (o[3]), "90", "1e-13", "0") /\ CloseA((o[2]) ++ (o[4]), "90", "1e-13", "0") ]
Au == R("149597870691.0")
Times(e, a, o) ==
  LET dt == DeltaT(e.year, e.month)
      d == Day(a.day, dt, a.lat, a.lon)  c == d.cosH
  IN IF (Abs(a.lat) \succ "89.999999") \/ (Abs(c) \succ "0.9999" /\ Abs(c) \prec "1.0001") THEN [NotDecided |-> TRUE]
     ELSE IF Abs(c) \succ "1" THEN [UtcDay |-> ErrIs(o, "ValueError")]
     ELSE IF ErrIs(o, "ValueError") THEN [UtcDay |-> FALSE]
     ELSE IF ~(IsSeq(o) /\ Len(o) = 3) THEN [Answers |-> FALSE]
     ELSE LET k == LET w == $[ (o[3] - (d.transit))/86400 + 0.5 ] IN Floor(w)  s == $[ k*86400 ]
              dd == IF REq(k, "0") THEN d ELSE Day(a.day ++ s, dt, a.lat, a.lon)
              h == dd.cosH  f == $[ 0.002/(1e-12 + 1 - h*h) ]
          IN IF Abs(h) \succ "0.9999" THEN [UtcDay |-> REq(k, "0")] ELSE
             [ UtcDay |-> REq(k, "0"), Sunrise |-> CloseA(o[1], dd.rise, "0", f), Sunset |-> CloseA(o[2], dd.set, "0", f), Transit |-> CloseA(o[3], dd.transit, "0", "0.01"),
               Order |-> (Abs(h) \succ "0.95") \/ ((o[1] \prec o[3]) /\ (o[3] \prec o[2])), Zone |-> IsTrue(e.zone) ]
Radiation(e, a, o) ==
  LET T == IF Has(a, "T") THEN a.T ELSE e.t0  P == IF Has(a, "P") THEN a.P ELSE e.p0
      s == IF e.cached THEN <<a.az0, a.tz, "0", "0", a.az>> ELSE Sun(a.u, DeltaT(e.year, e.month), a.lat, a.lon, a.Z, P // "100", T -- "273.15", M(a, "refr", "0.5667"))
      zen == s[1]  rel == RelAir(zen)  am == $[ rel*P/101325 ]
      c == Clear(zen, am, a.tl, a.Z, M(a, "I0", "1366.1"))
      w == Plane(zen, s[5], a.tilt, a.saz, c, M(a, "albedo", "0.25"))
      tol == IF e.cached THEN R("1e-9") ELSE R("1e-4")
  IN [ Radiation |-> CloseSeq(o, w, "1e-9", tol), Sums |-> CloseA(o[1], (o[2]) ++ (o[3]), "1e-12", "1e-12") /\ CloseA(o[3], (o[4]) ++ (o[5]), "1e-12", "1e-12") ]
Air(a) == LET g == Msis(Place(a.doy, "0", (a.Z) // "1000", a.lat, a.lon, "150", "150", <<>>))
              n == RSum(<<g.He, g.O, g.N2, g.O2, g.Ar, g.H, g.N>>)  T == g.T
          IN [T |-> T, P |-> $[ n*1e6*T*8.31446261815324/6.02214076e23 ]]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "sun" -> IF ~(IsSeq(o) /\ Len(o) = 6) THEN Stateless([Answers |-> FALSE]) ELSE Stateless(Pos(e, a, o))
    [] e.op = "distance" -> LET d == Geo(a.u, DeltaT(e.year, e.month)).R IN Stateless([Distance |-> CloseA(o, $[ Au*d ], "1e-10", "0")])
    [] e.op = "times" -> Stateless(Times(e, a, o))
    [] e.op = "deltat" -> Stateless([DeltaT |-> CloseA(o, DeltaT(a.year, a.month), "1e-10", "1e-9")])
    [] e.op = "julian" -> Stateless([JulianDay |-> CloseA(o, Jd(e.u), "0", "1e-8")])
    [] e.op = "nutpsi" -> Stateless([Nutation |-> CloseA(o, Nutation(e.jce).psi, "1e-8", "1e-12")])
    [] e.op = "nuteps" -> Stateless([Nutation |-> CloseA(o, Nutation(e.jce).eps, "1e-8", "1e-12")])
    [] e.op = "nuts" -> LET n == Nutation(e.jce) IN Stateless([Nutation |-> CloseSeq(o, <<n.psi, n.eps>>, "1e-8", "1e-12")])
    [] e.op = "orbit" -> LET j == a.jme IN IF ~(IsSeq(o) /\ Len(o) = 4) THEN Stateless([Answers |-> FALSE]) ELSE
         Stateless([Longitude |-> Angle(o[1], SunLong(j), "1e-8"), Latitude |-> CloseA(o[2], SunLat(j), "0", "1e-10"), Radius |-> CloseA(o[3], Radius5(j), "1e-12", "0"), Obliquity |-> CloseA(o[4], Obliquity(j), "1e-11", "0")])
    [] e.op = "arguments" -> Stateless([Arguments |-> CloseSeq(o, Args(a.jce), "1e-11", "1e-9")])
    [] e.op = "rad" -> IF ~(IsSeq(o) /\ Len(o) = 5) THEN Stateless([Answers |-> FALSE]) ELSE
                       IF e.air THEN LET w == Air(a) IN Stateless(Radiation([e EXCEPT !.t0 = w.T, !.p0 = w.P], a, o)) ELSE Stateless(Radiation(e, a, o))
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
