------------------------------- MODULE Solar -------------------------------
(* Position of the sun by the algorithm of Reda and Andreas (2004), times of  *)
(* sunrise, transit and sunset, and clear-sky radiation on a tilted surface.  *)
EXTENDS Integers, Sequences, TLC, R64, SolarData
Mod(x, m) == $[ x - m*floor(x/m) ]
Deg(x) == $[ x*180/pi ]
Rad(x) == $[ x*pi/180 ]
SinD(x) == Sin(Rad(x))
CosD(x) == Cos(Rad(x))
TanD(x) == Tan(Rad(x))
Terms(tab, x) == RSum([i \in 1 .. Len(tab) |-> LET r == tab[i] IN $[ r[1]*cos(r[2] + r[3]*x) ]])
Series(tabs, x) == Poly([i \in 1 .. Len(tabs) |-> Terms(tabs[i], x)], x)
Cube(c, x) == Poly(c, x)
\* fundamental arguments, in degrees
Args(T) == << Cube(<<"297.85036", "445267.111480", "-0.0019142", $[ 1/189474 ]>>, T), Cube(<<"357.52772", "35999.050340", "-0.0001603", $[ -1/300000 ]>>, T),
              Cube(<<"134.96298", "477198.867398", "0.0086972", $[ 1/56250 ]>>, T), Cube(<<"93.27191", "483202.017538", "-0.0036825", $[ 1/327270 ]>>, T),
              Cube(<<"125.04452", "-1934.136261", "0.0020708", $[ 1/450000 ]>>, T) >>
Nutation(T) ==
  LET X == Args(T)
      ang(i) == Rad(RSum([j \in 1 .. 5 |-> (YTerms[j][i]) ** X[j]]))
      n == Len(Abcd)
      A == [i \in 1 .. n |-> ang(i)]
  IN [psi |-> RSum([i \in 1 .. n |-> LET r == Abcd[i] IN $[ (r[1] + r[2]*T)*sin(A[i]) ]]) // "36000000", eps |-> RSum([i \in 1 .. n |-> LET r == Abcd[i] IN $[ (r[3] + r[4]*T)*cos(A[i]) ]]) // "36000000"]
Obliquity(jme) == LET U == $[ jme/10 ] IN Poly(<<"84381.448", "-4680.93", "-1.55", "1999.25", "-51.38", "-249.67", "-39.05", "7.12", "27.87", "5.79", "2.45">>, U)
\* time arguments from seconds since 1970
Jd(u) == $[ u/86400 + 2440587.5 ]
Century(jd) == $[ (jd - 2451545)/36525 ]
Radius5(jme) == $[ Series(Radius, jme)*1e-8 ]
\* the constant last term of the longitude series
SunLong(jme) == Mod(Deg($[ (Series(Longitude, jme) - 0.9999987317275395*jme**5)*1e-8 ]), "360")
SunLat(jme) == Deg($[ Series(Latitude, jme)*1e-8 ])
Geo(u, dt) ==
  LET jd == Jd(u)  jc == Century(jd)  T == Century(jd ++ (dt // "86400"))  jme == $[ T/10 ]
      R5 == Radius5(jme)
      L == SunLong(jme)  B == SunLat(jme)
      nut == Nutation(T)  psi == nut.psi  neps == nut.eps
      eps == $[ (Obliquity(jme))/3600 + neps ]
      lam == $[ L + 180 + psi - 20.4898/(3600*R5) ]
      beta == Neg(B)
      nu0 == Mod($[ 280.46061837 + 360.98564736629*(jd - 2451545) + jc*jc*(0.000387933 - jc/38710000) ], "360")
      nu == $[ nu0 + psi*CosD(eps) ]
      alpha == Mod(Deg(Atan2($[ SinD(lam)*CosD(eps) - TanD(beta)*SinD(eps) ], CosD(lam))), "360")
      delta == Deg(Asin($[ SinD(beta)*CosD(eps) + CosD(beta)*SinD(eps)*SinD(lam) ]))
      M == Poly(<<"280.4664567", "360007.6982779", "0.03032028", $[ 1/49931 ], $[ -1/15300 ], $[ -1/2000000 ]>>, jme)
      E == $[ 4*Mod(M - 0.0057183 - alpha + psi*CosD(eps), 360) ]
  IN [R |-> R5, nu |-> nu, alpha |-> alpha, delta |-> delta, eot |-> IF E \succ "20" THEN E -- "1440" ELSE E]
\* seen from a place: [apparent zenith, zenith, apparent elevation, elevation, azimuth, equation of time]
Refraction(P, t, e0, refr) == IF e0 \succeq $[ -(0.26667 + refr) ] THEN $[ P/1010*283/(273 + t)*1.02/(60*TanD(e0 + 10.3/(e0 + 5.11))) ] ELSE R("0")
Sun(u, dt, lat, lon, z, P, t, refr) ==
  LET g == Geo(u, dt)  R5 == g.R  nu == g.nu  alpha == g.alpha  delta == g.delta
      H == Mod($[ nu + lon - alpha ], "360")
      xi == $[ 8.794/(3600*R5) ]
      w == Atan($[ 0.99664719*TanD(lat) ])
      x == $[ cos(w) + z/6378140*CosD(lat) ]
      y == $[ 0.99664719*sin(w) + z/6378140*SinD(lat) ]
      den == $[ CosD(delta) - x*SinD(xi)*CosD(H) ]
      da == Deg(Atan2($[ -x*SinD(xi)*SinD(H) ], den))
      dp == Deg(Atan2($[ (SinD(delta) - y*SinD(xi))*CosD(da) ], den))
      Hp == $[ H - da ]
      e0 == Deg(Asin($[ SinD(lat)*SinD(dp) + CosD(lat)*CosD(dp)*CosD(Hp) ]))
      e == $[ e0 + Refraction(P, t, e0, refr) ]
      az == Mod($[ 180 + Deg(atan2(SinD(Hp), CosD(Hp)*SinD(lat) - TanD(dp)*CosD(lat))) ], "360")
  IN <<$[ 90 - e ], $[ 90 - e0 ], e, e0, az, $[ 60*(g.eot) ]>>
\* difference of dynamical and universal time, in seconds (Espenak and Meeus)
DeltaT(year, month) ==
  LET y == $[ year + (month - 0.5)/12 ]
      P(x0, s, c) == Poly(c, (y -- x0) // s)
      Parab == $[ -20 + 32*((y - 1820)/100)**2 ]
  IN CASE year < -500 \/ year >= 2150 -> Parab
       [] year >= -500 /\ year < 500 -> P("0", "100", <<"10583.6", "-1014.41", "33.78311", "-5.952053", "-0.1798452", "0.022174192", "0.0090316521">>)
       [] year >= 500 /\ year < 1600 -> P("1000", "100", <<"1574.2", "-556.01", "71.23472", "0.319781", "-0.8503463", "-0.005050998", "0.0083572073">>)
       [] year >= 1600 /\ year < 1700 -> P("1600", "1", <<"120", "-0.9808", "-0.01532", $[ 1/7129 ]>>)
       [] year >= 1700 /\ year < 1800 -> P("1700", "1", <<"8.83", "0.1603", "-0.0059285", "0.00013336", $[ -1/1174000 ]>>)
       [] year >= 1800 /\ year < 1860 -> P("1800", "1", <<"13.72", "-0.332447", "0.0068612", "0.0041116", "-0.00037436", "0.0000121272", "-0.0000001699", "0.000000000875">>)
       [] year >= 1860 /\ year < 1900 -> P("1860", "1", <<"7.62", "0.5737", "-0.251754", "0.01680668", "-0.0004473624", $[ 1/233174 ]>>)
       [] year >= 1900 /\ year < 1920 -> P("1900", "1", <<"-2.79", "1.494119", "-0.0598939", "0.0061966", "-0.000197">>)
       [] year >= 1920 /\ year < 1941 -> P("1920", "1", <<"21.20", "0.84493", "-0.076100", "0.0020936">>)
       [] year >= 1941 /\ year < 1961 -> P("1950", "1", <<"29.07", "0.407", $[ -1/233 ], $[ 1/2547 ]>>)
       [] year >= 1961 /\ year < 1986 -> P("1975", "1", <<"45.45", "1.067", $[ -1/260 ], $[ -1/718 ]>>)
       [] year >= 1986 /\ year < 2005 -> P("2000", "1", <<"63.86", "0.3345", "-0.060374", "0.0017275", "0.000651814", "0.00002373599">>)
       [] year >= 2005 /\ year < 2050 -> P("2000", "1", <<"62.92", "0.32217", "0.005589">>)
       [] OTHER -> $[ Parab - 0.5628*(2150 - y) ]
\* rise, transit and set around the transit of the day starting at u (00:00 UT)
Limit1(x) == IF Abs(x) \succ "2" THEN Mod(x, "1") ELSE x
CosHour(lat, delta) == $[ (SinD(-0.8333) - SinD(lat)*SinD(delta))/(CosD(lat)*CosD(delta)) ]
Day(u, dt, lat, lon) ==
  LET n == Geo(u, dt).nu
      gm == Geo($[ u - dt - 86400 ], dt)  g0 == Geo($[ u - dt ], dt)  gp == Geo($[ u - dt + 86400 ], dt)
      alpha == g0.alpha  delta == g0.delta
      H0 == Deg(Acos(CosHour(lat, delta)))
      m0 == Mod($[ (alpha - lon - n)/360 ], "1")
      a == Limit1(alpha -- (gm.alpha))  ad == Limit1(delta -- (gm.delta))  b == Limit1((gp.alpha) -- alpha)  bd == Limit1((gp.delta) -- delta)
      At(m) == LET k == $[ m + dt/86400 ]  al == $[ alpha + k*(a + b + (b - a)*k)/2 ]  de == $[ delta + k*(ad + bd + (bd - ad)*k)/2 ]
                   H == Mod($[ n + 360.985647*m + lon - al ], "360")  Hp == IF H \succeq "180" THEN H -- "360" ELSE H
               IN [H |-> Hp, d |-> de, h |-> Deg(Asin($[ SinD(lat)*SinD(de) + CosD(lat)*CosD(de)*CosD(Hp) ]))]
      Edge(m) == LET q == At(m)  h == q.h  d == q.d  H == q.H IN $[ m + (h + 0.8333)/(360*CosD(d)*CosD(lat)*SinD(H)) ]
      r == $[ m0 - H0/360 ]  s == $[ m0 + H0/360 ]
      t0 == At(m0).H
      off(m, x) == x ++ (m -- Mod(m, "1"))
  IN [transit |-> $[ u + 86400*(m0 - t0/360) ], rise |-> LET e == off(r, Edge(Mod(r, "1"))) IN $[ u + 86400*e ], set |-> LET e == off(s, Edge(Mod(s, "1"))) IN $[ u + 86400*e ], cosH |-> CosHour(lat, delta)]
\* clear sky (Ineichen and Perez), and transposition to a plane with an isotropic sky
RelAir(zen) == IF zen \succeq "96.07995" THEN R("-1") ELSE $[ 1/(CosD(zen) + 0.50572*(96.07995 - zen)**(-1.6364)) ]
Clear(zen, am, tl, alt, I0) ==
  LET cz == RMax(CosD(zen), "0")  f1 == $[ exp(-alt/8000) ]  f2 == $[ exp(-alt/1250) ]
      ghi == $[ (5.09e-5*alt + 0.868)*I0*cz*exp(-(3.92e-5*alt + 0.0387)*am*(f1 + f2*(tl - 1)))*exp(0.01*am**1.8) ]
      b1 == $[ I0*(0.664 + 0.163/f1)*exp(-0.09*am*(tl - 1)) ]
      b2 == IF ghi \succ "0" THEN $[ ghi*(1 - (0.1 - 0.2*exp(-tl))/(0.1 + 0.882/f1))/cz ] ELSE R("0")
      dni == RMin(b1, b2)
  IN IF am \prec "0" THEN [ghi |-> R("0"), dni |-> R("0"), dhi |-> R("0")] ELSE [ghi |-> ghi, dni |-> dni, dhi |-> $[ ghi - dni*cz ]]
Plane(zen, az, tilt, saz, c, albedo) ==
  LET dni == c.dni  ghi == c.ghi  dhi == c.dhi
      ca == $[ CosD(tilt)*CosD(zen) + SinD(tilt)*SinD(zen)*CosD(az - saz) ]
      dir == RMax($[ dni*ca ], "0")  sky == $[ dhi*(1 + CosD(tilt))/2 ]  gr == $[ ghi*albedo*(1 - CosD(tilt))/2 ]
  IN <<$[ dir + sky + gr ], dir, $[ sky + gr ], sky, gr>>
=============================================================================
