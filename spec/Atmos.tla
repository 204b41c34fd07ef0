------------------------------- MODULE Atmos -------------------------------
(* The standard atmosphere of 1976, air mass along a slanted path, and the    *)
(* NRLMSISE-00 model of the thermosphere and of the atmosphere below it.      *)
EXTENDS Integers, Sequences, TLC, R64, AtmosData
Earth == R("6356766")
\* seven layers of constant gradient in geopotential height
Height == <<"0", "11000", "20000", "32000", "47000", "51000", "71000", "84852">>
Grad == <<"-0.0065", "0", "0.001", "0.0028", "0", "-0.0028", "-0.002", "0">>
GMR == (("9.80665" ** "28.9644") // "8314.32")
Geopotential(z) == ((Earth ** z) // (Earth ++ z))
\* temperature and pressure at the base of a layer follow from the layer below
LayerT(t, k, h) == LET h0 == Height[k]  l == Grad[k] IN (t ++ (l ** (h -- h0)))
LayerP(t, p, k, h) == LET h0 == Height[k]  l == Grad[k] IN
  IF REq(l, "0") THEN (p ** Exp((Neg(GMR) ** (h -- h0)) // t)) ELSE LET T == LayerT(t, k, h) IN (p ** ((t // T) ^^ (GMR // l)))
RECURSIVE Base(_)
Base(k) == IF k = 1 THEN <<R("288.15"), R("101325")>>
           ELSE LET b == Base(k - 1) IN <<LayerT(b[1], k - 1, Height[k]), LayerP(b[1], b[2], k - 1, Height[k])>>
Bases == [k \in 1 .. 8 |-> Base(k)]
Layer(h) == IF h \preceq "0" THEN 1 ELSE CHOOSE k \in 1 .. 8 : (Height[k] \prec h) /\ (k = 8 \/ (h \preceq Height[k + 1]))
StdT(z) == LET h == Geopotential(z)  k == Layer(h) IN LayerT(Bases[k][1], k, h)
StdP(z) == LET h == Geopotential(z)  k == Layer(h) IN LayerP(Bases[k][1], Bases[k][2], k, h)
Gravity(z) == R("9.80665" ** ((Earth // (Earth ++ z)) ^^ "2"))
Density(T, P) == ((P ** "28.9644") // ("8314.32" ** T))
Sonic(T) == (Sqrt((("1.4" ** "8314.32") ** T) // "28.9644"))
Viscosity(T) == (("1.458e-6" ** (T ^^ "1.5")) // (T ++ "110.4"))
Conductivity(T) == (("2.64638e-3" ** (T ^^ "1.5")) // (T ++ ("245.4" ** ("10" ^^ ("-12" // T)))))
\* pressure between the height where the pressure is P1 and dH above it
PressureIntegral(T1, P1, dH) ==
  LET z == Zero([x \in Reals |-> StdP(x) -- P1], "-610", "86000")
      dT == (T1 -- StdT(z))
  IN Quad([x \in Reals |-> LET T == (StdT(x) ++ dT)  p == StdP(x) IN (Gravity(x) ** Density(T, p))], z, z ++ dH)
\* the integrand of the path through a refracting atmosphere
PathDensity(rho, rho0, h, angle, Rp, RI) ==
  (rho // Sqrt("1" -- (("1" ++ (("2" ** (RI -- "1")) ** ("1" -- (rho // rho0)))) ** ((Cos((angle ** "3.141592653589793") // "180") // ("1" ++ (h // Rp))) ^^ "2"))))

-----------------------------------------------------------------------------
(* NRLMSISE-00.  g: the place, time and activity.                             *)
HR == R("0.2618")
SR == R("7.2722E-5")
DGTR == R("1.74533E-2")
DR == R("1.72142E-2")
Legendre(lat) ==
  LET c == (Sin(lat ** DGTR))  s == (Cos(lat ** DGTR))  c2 == (c ** c)  c4 == (c2 ** c2)  s2 == (s ** s)
      p15 == ((((("63" ** c4) ** c) -- (("70" ** c2) ** c)) ++ ("15" ** c)) // "8")  p14 == (((("35" ** c4) -- ("30" ** c2)) ++ "3") // "8")
      q14 == (("2.5" ** ((("7" ** c2) ** c) -- ("3" ** c))) ** s)  q15 == (("1.875" ** ((("21" ** c4) -- ("14" ** c2)) ++ "1")) ** s)
      r13 == (("15" ** s2) ** c)  r14 == (("7.5" ** (("7" ** c2) -- "1")) ** s2)  r15 == ((("3" ** c) ** r14) -- ("2" ** r13))  r16 == (((("11" ** c) ** r15) -- ("7" ** r14)) // "4")
      t13 == (("15" ** s2) ** s)  t14 == ((("105" ** s2) ** s) ** c)  t15 == (((("9" ** c) ** t14) -- ("7" ** t13)) // "2")
  IN << << 0, c, R("0.5" ** (("3" ** c2) -- "1")), R("0.5" ** ((("5" ** c) ** c2) -- ("3" ** c))), p14, p15, (((("11" ** c) ** p15) -- ("5" ** p14)) // "6") >>,
        << 0, s, (("3" ** c) ** s), (("1.5" ** (("5" ** c2) -- "1")) ** s), q14, q15, (((("11" ** c) ** q15) -- ("6" ** q14)) // "5") >>,
        << 0, 0, R("3" ** s2), r13, r14, r15, r16, (((("13" ** c) ** r16) -- ("8" ** r15)) // "5") >>,
        << 0, 0, 0, t13, t14, t15, (((("11" ** c) ** t15) -- ("8" ** t14)) // "3") >> >>
Place(day, sec, alt, lat, long, f, fa, ap) ==
  LET t == (HR ** ((sec // "3600") ++ (long // "15"))) IN
  [day |-> day, sec |-> sec, alt |-> alt, lat |-> lat, long |-> long, f |-> f, fa |-> fa, ap |-> ap, lst |-> ((sec // "3600") ++ (long // "15")), L |-> Legendre(lat),
   tr |-> <<Sin(t), Cos(t), Sin("2" ** t), Cos("2" ** t), Sin("3" ** t), Cos("3" ** t)>>]
\* magnetic activity: of the day, or weighted over the last 57 hours
Ap1(a, p) == LET p44 == p[44]  p45 == p[45] IN (a ++ ((p45 -- "1") ** (a ++ ((Exp(Neg(p44) ** a) -- "1") // p44))))
Quiet == R("-4")          \* without indices the activity is zero
ApDay(p) == IF REq(p[44], "0") THEN R("0") ELSE Ap1(Quiet, [p EXCEPT ![44] = IF p[44] \prec "0" THEN R("1e-5") ELSE p[44]])
ApHist(g, p) ==
  LET p52 == Abs(p[52])  q == RMax(p[25], "1e-4")  p26 == p[26]  p139 == p[139]  lat == g.lat
      ex == RMin((Exp(("-10800" ** p52) // ("1" ++ (p139 ** ("45" -- Abs(lat)))))), "0.99999")
      G(k) == LET a == (g.ap[k]) -- "4" IN (a ++ ((p26 -- "1") ** (a ++ ((Exp(Neg(Abs(q)) ** a) -- "1") // Abs(q)))))
      g2 == G(2) g3 == G(3) g4 == G(4) g5 == G(5) g6 == G(6) g7 == G(7)
  IN ((g2 ++ ((((g3 ** ex) ++ ((g4 ** ex) ** ex)) ++ (g5 ** (ex ^^ "3"))) ++ ((((g6 ** (ex ^^ "4")) ++ (g7 ** (ex ^^ "12"))) ** ("1" -- (ex ^^ "8"))) // ("1" -- ex)))) // ("1" ++ ((("1" -- (ex ^^ "19")) // ("1" -- ex)) ** (ex ^^ "0.5"))))
Hist(g) == g.ap # <<>>
Globe(p, g) ==
  LET L == g.L  st1 == g.tr[1] ct1 == g.tr[2] st2 == g.tr[3] ct2 == g.tr[4] st3 == g.tr[5] ct3 == g.tr[6]
      day == g.day  long == g.long  sec == g.sec  tloc == g.lst  f == g.f  fa == g.fa
      cd32 == (Cos(DR ** (day -- p[32])))  cd18 == (Cos(("2" ** DR) ** (day -- p[18])))  cd14 == (Cos(DR ** (day -- p[14])))  cd39 == (Cos(("2" ** DR) ** (day -- p[39])))
      df == (f -- fa)  dfa == (fa -- "150")
      flux == (((((p[20] ** df) ** ("1" ++ (p[60] ** dfa))) ++ ((p[21] ** df) ** df)) ++ (p[22] ** dfa)) ++ ((p[30] ** dfa) ** dfa))
      f1 == ((("1" ++ (p[48] ** dfa)) ++ (p[20] ** df)) ++ ((p[21] ** df) ** df))
      f2 == ((("1" ++ (p[50] ** dfa)) ++ (p[20] ** df)) ++ ((p[21] ** df) ** df))
      indep == (((((p[2] ** L[1][3]) ++ (p[3] ** L[1][5])) ++ (p[23] ** L[1][7])) ++ ((p[15] ** L[1][3]) ** dfa)) ++ (p[27] ** L[1][2]))
      annual == ((p[19] ** cd32) ++ ((f1 ** ((p[10] ** L[1][2]) ++ (p[11] ** L[1][4]))) ** cd14))
      semi == (((p[16] ++ (p[17] ** L[1][3])) ** cd18) ++ ((p[38] ** L[1][2]) ** cd39))
      diurnal == (f2 ** ((((((p[4] ** L[2][2]) ++ (p[5] ** L[2][4])) ++ (p[28] ** L[2][6])) ++ ((p[12] ** L[2][3]) ** cd14)) ** ct1) ++ (((((p[7] ** L[2][2]) ++ (p[8] ** L[2][4])) ++ (p[29] ** L[2][6])) ++ ((p[13] ** L[2][3]) ** cd14)) ** st1)))
      semidiurnal == (f2 ** (((((p[6] ** L[3][3]) ++ (p[42] ** L[3][5])) ++ (((p[24] ** L[3][4]) ++ (p[36] ** L[3][6])) ** cd14)) ** ct2) ++ ((((p[9] ** L[3][3]) ++ (p[43] ** L[3][5])) ++ (((p[34] ** L[3][4]) ++ (p[37] ** L[3][6])) ** cd14)) ** st2)))
      terdiurnal == (f2 ** ((((p[40] ** L[4][4]) ++ (((p[94] ** L[4][5]) ++ (p[47] ** L[4][7])) ** cd14)) ** st3) ++ (((p[41] ** L[4][4]) ++ (((p[95] ** L[4][5]) ++ (p[49] ** L[4][7])) ** cd14)) ** ct3)))
      ah == IF Hist(g) /\ ~REq(p[52], "0") THEN ApHist(g, p) ELSE R("0")
      ad == ApDay(p)
      magnetic == IF Hist(g)
        THEN (ah ** ((((p[51] ++ (p[97] ** L[1][3])) ++ (p[55] ** L[1][5])) ++ ((((p[126] ** L[1][2]) ++ (p[127] ** L[1][4])) ++ (p[128] ** L[1][6])) ** cd14)) ++ ((((p[129] ** L[2][2]) ++ (p[130] ** L[2][4])) ++ (p[131] ** L[2][6])) ** Cos(HR ** (tloc -- p[132])))))
        ELSE (ad ** ((((p[33] ++ (p[46] ** L[1][3])) ++ (p[35] ** L[1][5])) ++ ((((p[101] ** L[1][2]) ++ (p[102] ** L[1][4])) ++ (p[103] ** L[1][6])) ** cd14)) ++ ((((p[122] ** L[2][2]) ++ (p[123] ** L[2][4])) ++ (p[124] ** L[2][6])) ** Cos(HR ** (tloc -- p[125])))))
      longitude == (("1" ++ (p[81] ** dfa)) ** (((((((((p[65] ** L[2][3]) ++ (p[66] ** L[2][5])) ++ (p[67] ** L[2][7])) ++ (p[104] ** L[2][2])) ++ (p[105] ** L[2][4])) ++ (p[106] ** L[2][6])) ++ ((((p[110] ** L[2][2]) ++ (p[111] ** L[2][4])) ++ (p[112] ** L[2][6])) ** cd14)) ** Cos(DGTR ** long)) ++ ((((((((p[91] ** L[2][3]) ++ (p[92] ** L[2][5])) ++ (p[93] ** L[2][7])) ++ (p[107] ** L[2][2])) ++ (p[108] ** L[2][4])) ++ (p[109] ** L[2][6])) ++ ((((p[113] ** L[2][2]) ++ (p[114] ** L[2][4])) ++ (p[115] ** L[2][6])) ** cd14)) ** Sin(DGTR ** long))))
      ut == (((((("1" ++ (p[96] ** L[1][2])) ** ("1" ++ (p[82] ** dfa))) ** ("1" ++ ((p[120] ** L[1][2]) ** cd14))) ** (((p[69] ** L[1][2]) ++ (p[70] ** L[1][4])) ++ (p[71] ** L[1][6]))) ** Cos(SR ** (sec -- p[72]))) ++ (((((p[77] ** L[3][4]) ++ (p[78] ** L[3][6])) ++ (p[79] ** L[3][8])) ** Cos((SR ** (sec -- p[80])) ++ (("2" ** DGTR) ** long))) ** ("1" ++ (p[138] ** dfa))))
      mixed == IF Hist(g)
        THEN (ah ** ((((("1" ++ (p[133] ** L[1][2])) ** (((p[53] ** L[2][3]) ++ (p[99] ** L[2][5])) ++ (p[68] ** L[2][7]))) ** Cos(DGTR ** (long -- p[98]))) ++ (((((p[134] ** L[2][2]) ++ (p[135] ** L[2][4])) ++ (p[136] ** L[2][6])) ** cd14) ** Cos(DGTR ** (long -- p[137])))) ++ ((((p[56] ** L[1][2]) ++ (p[57] ** L[1][4])) ++ (p[58] ** L[1][6])) ** Cos(SR ** (sec -- p[59])))))
        ELSE (ad ** ((((("1" ++ (p[121] ** L[1][2])) ** (((p[61] ** L[2][3]) ++ (p[62] ** L[2][5])) ++ (p[63] ** L[2][7]))) ** Cos(DGTR ** (long -- p[64]))) ++ (((((p[116] ** L[2][2]) ++ (p[117] ** L[2][4])) ++ (p[118] ** L[2][6])) ** cd14) ** Cos(DGTR ** (long -- p[119])))) ++ ((((p[84] ** L[1][2]) ++ (p[85] ** L[1][4])) ++ (p[86] ** L[1][6])) ** Cos(SR ** (sec -- p[76])))))
  IN (((((((((((p[31] ++ flux) ++ indep) ++ annual) ++ semi) ++ diurnal) ++ semidiurnal) ++ terdiurnal) ++ magnetic) ++ longitude) ++ ut) ++ mixed)
\* the version for the lower atmosphere; ah: weighted activity of the last table with one
Globs(p, g, ah) ==
  LET L == g.L  st1 == g.tr[1] ct1 == g.tr[2] st2 == g.tr[3] ct2 == g.tr[4] st3 == g.tr[5] ct3 == g.tr[6]
      day == g.day  long == g.long  fa == g.fa
      cd32 == (Cos(DR ** (day -- p[32])))  cd18 == (Cos(("2" ** DR) ** (day -- p[18])))  cd14 == (Cos(DR ** (day -- p[14])))  cd39 == (Cos(("2" ** DR) ** (day -- p[39])))
      flux == (p[22] ** (fa -- "150"))
      indep == ((((((p[2] ** L[1][3]) ++ (p[3] ** L[1][5])) ++ (p[23] ** L[1][7])) ++ (p[27] ** L[1][2])) ++ (p[15] ** L[1][4])) ++ (p[60] ** L[1][6]))
      annual == ((((p[19] ++ (p[48] ** L[1][3])) ++ (p[30] ** L[1][5])) ** cd32) ++ ((((p[10] ** L[1][2]) ++ (p[11] ** L[1][4])) ++ (p[21] ** L[1][6])) ** cd14))
      semi == ((((p[16] ++ (p[17] ** L[1][3])) ++ (p[31] ** L[1][5])) ** cd18) ++ ((p[38] ** L[1][2]) ** cd39))
      diurnal == (((((p[4] ** L[2][2]) ++ (p[5] ** L[2][4])) ++ ((p[12] ** L[2][3]) ** cd14)) ** ct1) ++ ((((p[7] ** L[2][2]) ++ (p[8] ** L[2][4])) ++ ((p[13] ** L[2][3]) ** cd14)) ** st1))
      semidiurnal == (((((p[6] ** L[3][3]) ++ (p[42] ** L[3][5])) ++ (((p[24] ** L[3][4]) ++ (p[36] ** L[3][6])) ** cd14)) ** ct2) ++ ((((p[9] ** L[3][3]) ++ (p[43] ** L[3][5])) ++ (((p[34] ** L[3][4]) ++ (p[37] ** L[3][6])) ** cd14)) ** st2))
      terdiurnal == (((p[40] ** L[4][4]) ** st3) ++ ((p[41] ** L[4][4]) ** ct3))
      ad == ApDay(p)
      magnetic == IF Hist(g) THEN (ah ** (p[51] ++ (p[97] ** L[1][3]))) ELSE (ad ** (p[33] ++ (p[46] ** L[1][3])))
      longitude == (((("1" ++ (L[1][2] ** ((p[81] ** Cos(DR ** (day -- p[82]))) ++ (p[86] ** Cos(("2" ** DR) ** (day -- p[87])))))) ++ (p[84] ** Cos(DR ** (day -- p[85])))) ++ (p[88] ** Cos(("2" ** DR) ** (day -- p[89])))) ** ((((((((p[65] ** L[2][3]) ++ (p[66] ** L[2][5])) ++ (p[67] ** L[2][7])) ++ (p[75] ** L[2][2])) ++ (p[76] ** L[2][4])) ++ (p[77] ** L[2][6])) ** Cos(DGTR ** long)) ++ (((((((p[91] ** L[2][3]) ++ (p[92] ** L[2][5])) ++ (p[93] ** L[2][7])) ++ (p[78] ** L[2][2])) ++ (p[79] ** L[2][4])) ++ (p[80] ** L[2][6])) ** Sin(DGTR ** long))))
  IN ((((((((flux ++ indep) ++ annual) ++ semi) ++ diurnal) ++ semidiurnal) ++ terdiurnal) ++ magnetic) ++ longitude)

\* gravity at the surface and effective radius, by latitude
GSurf(lat) == R("980.616" ** ("1" -- ("0.0026373" ** Cos(("2" ** DGTR) ** lat))))
REff(lat) == LET c == (Cos(("2" ** DGTR) ** lat)) IN ((("2" ** GSurf(lat)) // ("3.085462E-6" ++ ("2.27E-9" ** c))) ** "1e-5")
Zeta(z, zl, re) == (((z -- zl) ** (re ++ zl)) // (re ++ z))
\* cubic spline with end slopes
RECURSIVE Sweep(_, _, _, _, _)
Sweep(x, y, y2, u, i) ==      \* second derivatives, forward
  IF i = Len(x) THEN <<y2, u>>
  ELSE LET sig == ((x[i] -- x[i - 1]) // (x[i + 1] -- x[i - 1]))  p == ((sig ** y2[i - 1]) ++ "2")
       IN Sweep(x, y, Append(y2, ((sig -- "1") // p)), Append(u, (((("6" ** (((y[i + 1] -- y[i]) // (x[i + 1] -- x[i])) -- ((y[i] -- y[i - 1]) // (x[i] -- x[i - 1])))) // (x[i + 1] -- x[i - 1])) -- (sig ** u[i - 1])) // p)), i + 1)
RECURSIVE Back(_, _, _, _)
Back(y2, u, k, d) == IF k = 0 THEN d ELSE Back(y2, u, k - 1, <<((y2[k] ** d[1]) ++ u[k])>> \o d)
Spline(x, y, s1, sn) ==
  LET n == Len(x)
      w == Sweep(x, y, <<R("-0.5")>>, <<(("3" // (x[2] -- x[1])) ** (((y[2] -- y[1]) // (x[2] -- x[1])) -- s1))>>, 2)
      m == n - 1
      un == (("3" // (x[n] -- x[m])) ** (sn -- ((y[n] -- y[m]) // (x[n] -- x[m]))))
      y2 == w[1]  u == w[2]
  IN Back(y2, u, m, <<((un -- ("0.5" ** u[m])) // (("0.5" ** y2[m]) ++ "1"))>>)
SplAt(x, y, d, v) ==
  LET n == Len(x)
      k == IF n = 1 THEN 1 ELSE IF ~(x[2] \preceq v) THEN 1 ELSE CHOOSE i \in 2 .. n - 1 : (x[i] \preceq v) /\ (i = n - 1 \/ ~(x[i + 1] \preceq v))
      j == k + 1  h == (x[j] -- x[k])  a == ((x[j] -- v) // h)  b == ((v -- x[k]) // h)
  IN (((a ** y[k]) ++ (b ** y[j])) ++ ((((((((a ** a) ** a) -- a) ** d[k]) ++ ((((b ** b) ** b) -- b) ** d[j])) ** h) ** h) // "6"))
SplInt(x, y, d, v) ==      \* integral from x[1] to v
  LET n == Len(x)
      part(k) == IF ~(v \succ x[k]) THEN R("0")
        ELSE LET j == k + 1  xx == IF j < n /\ ~(v \prec x[j]) THEN x[j] ELSE v
                 h == (x[j] -- x[k])  a == ((x[j] -- xx) // h)  b == ((xx -- x[k]) // h)  a2 == (a ** a)  b2 == (b ** b)
             IN (((((("1" -- a2) ** y[k]) // "2") ++ ((b2 ** y[j]) // "2")) ++ (((((((Neg("1" ++ (a2 ** a2)) // "4") ++ (a2 // "2")) ** d[k]) ++ ((((b2 ** b2) // "4") -- (b2 // "2")) ** d[j])) ** h) ** h) // "6")) ** h)
  IN RSum([k \in 1 .. n - 1 |-> part(k)])
\* one spline segment of the temperature profile between nodes zn: temperature at z and the integral of 1/T
Segment(z, zn, tn, g1, g2, re) ==
  LET n == Len(zn)  z1 == zn[1]  z2 == zn[n]  t1 == tn[1]  t2 == tn[n]
      zgd == Zeta(z2, z1, re)
      xs == [k \in 1 .. n |-> (Zeta(zn[k], z1, re) // zgd)]
      ys == [k \in 1 .. n |-> "1" // (tn[k])]
      d == Spline(xs, ys, ((Neg(g1) // (t1 ** t1)) ** zgd), (((Neg(g2) // (t2 ** t2)) ** zgd) ** (((re ++ z2) // (re ++ z1)) ^^ "2")))
      x == Zeta(z, z1, re) // zgd
  IN [t |-> "1" // SplAt(xs, ys, d, x), int |-> (zgd ** SplInt(xs, ys, d, x))]
Gas == R("831.4")
\* hydrostatic factor for molecular mass xm
Column(z1, xm, int, gs, re) == (Exp(Neg((((xm ** gs) // (("1" ++ (z1 // re)) ^^ "2")) ** int) // Gas)))
\* lower atmosphere: density and temperature below 72.5 km
Densm(alt, d0, xm, n3, t3, g3, n2, t2, g2, gs, re) ==
  LET s2 == Segment(RMax(alt, n2[Len(n2)]), n2, t2, g2[1], g2[2], re)
      T2 == s2.t  c2 == Column(n2[1], xm, s2.int, gs, re)  u1 == t2[1]
      da == ((d0 ** (u1 // T2)) ** c2)
  IN IF alt \succ n3[1] THEN [d |-> da, t |-> T2]
     ELSE LET s3 == Segment(alt, n3, t3, g3[1], g3[2], re)  T3 == s3.t  c3 == Column(n3[1], xm, s3.int, gs, re)  v1 == t3[1]
          IN [d |-> ((da ** (v1 // T3)) ** c3), t |-> T3]
\* upper atmosphere
Densu(alt, dlb, tinf, tlb, xm, alpha, zlb, s2, n1, t1, g1, gs, re) ==
  LET za == n1[1]
      z == RMax(alt, za)
      zg2 == Zeta(z, zlb, re)
      tt == (tinf -- ((tinf -- tlb) ** Exp(Neg(s2) ** zg2)))
      gam == ((xm ** (gs // (("1" ++ (zlb // re)) ^^ "2"))) // ((s2 ** Gas) ** tinf))
      densa == ((dlb ** ((tlb // tt) ^^ (("1" ++ alpha) ++ gam))) ** Exp((Neg(s2) ** gam) ** zg2))
      dta == (((tinf -- tt) ** s2) ** (((re ++ zlb) // (re ++ za)) ^^ "2"))
      s == Segment(RMax(alt, n1[Len(n1)]), n1, [t1 EXCEPT ![1] = tt], dta, g1, re)
      T == s.t  c == Column(za, xm, s.int, gs, re)
  IN IF alt \succeq za THEN [d |-> densa, t |-> tt] ELSE [d |-> ((densa ** ((tt // T) ^^ ("1" ++ alpha))) ** c), t |-> T]
Scalh(alt, xm, temp, gs, re) == ((Gas ** temp) // ((gs // (("1" ++ (alt // re)) ^^ "2")) ** xm))
Ccor(alt, r, h1, zh) == LET e == ((alt -- zh) // h1) IN IF e \succ "70" THEN R("1") ELSE IF e \prec "-70" THEN Exp(r) ELSE (Exp(r // ("1" ++ Exp(e))))
Ccor2(alt, r, h1, zh, h2) == LET e == ((alt -- zh) // h1)  f == ((alt -- zh) // h2) IN
  IF (e \succ "70") \/ (f \succ "70") THEN R("1") ELSE IF (e \prec "-70") /\ (f \prec "-70") THEN Exp(r) ELSE (Exp(r // ("1" ++ ("0.5" ** (Exp(e) ++ Exp(f))))))
\* turbopause: from mixed below to diffusive above
Dnet(dd, dm, zhm, xmm, xm) == LET a == (zhm // (xmm -- xm))  y == (a ** Ln(dm // dd)) IN
  IF y \prec "-10" THEN dd ELSE IF y \succ "10" THEN dm ELSE (dd ** (("1" ++ Exp(y)) ^^ ("1" // a)))

\* species: index of the table of densities, of the lower-boundary constants, mass, thermal diffusion, highest mixing altitude
Thermo(g, z, gs, re) ==
  LET za == Cpdl[2][16]
      zn == <<za, R("110"), R("100"), R("90"), R("72.5")>>
      tinf == LET a == Cptm[1] b == Cpt[1] IN IF z \succ za THEN ((a ** b) ** ("1" ++ Globe(Cpt, g))) ELSE (a ** b)
      g0 == LET a == Cptm[4] b == Cps[1] IN IF z \succ "72.5" THEN ((a ** b) ** ("1" ++ Globe(Cps, g))) ELSE (a ** b)
      tlb == LET a == Cptm[2] b == Cpd[4][1] pp == Cpd[4] IN ((a ** ("1" ++ Globe(pp, g))) ** b)
      s == (g0 // (tinf -- tlb))
      ah == IF Hist(g) THEN ApHist(g, Cpd[4]) ELSE R("0")
      Low(t, k) == LET pp == Cptl[k] IN IF z \prec "300" THEN (t ** (pp[1])) // ("1" -- Globs(pp, g, ah)) ELSE t ** (pp[1])
      tn == <<tlb, Low(Cptm[7], 1), Low(Cptm[3], 2), Low(Cptm[8], 3), Low(Cptm[5], 4)>>
      tg == LET a == Cptm[9] pp == Cpma[9] b == pp[1] c == tn[5] d == Cptm[5] e == Cptl[4][1]
            IN IF z \prec "300" THEN (((((a ** b) ** ("1" ++ Globs(pp, g, ah))) ** c) ** c) // ((d ** e) ^^ "2")) ELSE ((((a ** b) ** c) ** c) // ((d ** e) ^^ "2"))
      zlb == Cptm[6]
      U(alt, db, xm, al) == Densu(alt, db, tinf, tlb, xm, al, zlb, s, zn, tn, tg, gs, re)
      xmm == Cpdm[3][5]
      Db(k, j) == LET pp == Cpd[k] a == Cpdm[j][1] b == pp[1] IN ((a ** Exp(Globe(pp, g))) ** b)
      zhf == LET a == Cpdl[2][25] b == Cpdl[1][25] lat == g.lat day == g.day c == Cpt[14] IN (a ** ("1" ++ ((b ** Sin(DGTR ** lat)) ** Cos(DR ** (day -- c)))))
      zhm == (Cpdm[3][4]) ** (Cpdl[2][6])
      db28 == Db(3, 3)
      b28 == U((Cpdm[3][3]) ** zhf, db28, "28" -- xmm, "-1").d
      dm28 == IF z \preceq "160" THEN U(z, b28, xmm, "0").d ELSE R("0")
      n28 == LET d == U(z, db28, "28", "0").d IN IF z \preceq "160" THEN Dnet(d, dm28, zhm, xmm, "28") ELSE d
      \* mixed and diffusive densities of one species
      Mix(k, j, m, al, top, strict) ==
        LET db == Db(k, j)  d == U(z, db, m, al).d
            mixes == (z \prec top) \/ (~strict /\ REq(z, top))
            b == U(Cpdm[j][3], db, m -- xmm, al -- "1").d
            dm == U(z, b, xmm, "0").d
        IN [b |-> b, mixes |-> mixes, d |-> IF mixes THEN Dnet(d, dm, zhm, xmm, m) ELSE d]
      Chem(x, r, c, k, h, i) == LET a == Cpdm[c][6] hc == Cpdl[k][h] e == Cpdm[c][5] zc == Cpdl[k][i] IN x ** Ccor(z, r, a ** hc, e ** zc)
      \* correction by chemistry far above
      Chem3(x, c, r, k, h, i) == LET a == Cpdm[c][8] hc == Cpdl[k][h] e == Cpdm[c][7] zc == Cpdl[k][i] IN x ** Ccor(z, r, a ** hc, e ** zc)
      Rl(m, c) == LET q == Cpdm[c][2] bb == m.b IN (Ln((b28 ** q) // bb))
      fa == g.fa
      act == LET q == Cpdl[1][24] IN R("1" ++ (q ** (fa -- "150")))
      mHe == Mix(1, 1, "4", "-0.38", "200", TRUE)
      nHe == IF mHe.mixes THEN Chem(mHe.d, Rl(mHe, 1), 1, 2, 2, 1) ELSE mHe.d
      mO == Mix(2, 2, "16", "0", "300", FALSE)
      nO == IF mO.mixes
            THEN LET r == ((Cpdm[2][2]) ** (Cpdl[2][17])) ** act
                     x == mO.d ** Ccor2(z, r, (Cpdm[2][6]) ** (Cpdl[2][4]), (Cpdm[2][5]) ** (Cpdl[2][3]), (Cpdm[2][6]) ** (Cpdl[2][5]))
                 IN Chem3(x, 2, (Cpdm[2][4]) ** (Cpdl[2][15]), 2, 14, 13)
            ELSE mO.d
      mO2 == Mix(5, 4, "32", "0", "250", FALSE)
      nO2 == LET x == IF mO2.mixes THEN Chem(mO2.d, Rl(mO2, 4), 4, 2, 8, 7) ELSE mO2.d
             IN x ** Ccor2(z, ((Cpdm[4][4]) ** (Cpdl[2][24])) ** act, (Cpdm[4][8]) ** (Cpdl[2][23]), (Cpdm[4][7]) ** (Cpdl[2][22]), (Cpdm[4][8]) ** (Cpdl[1][23]))
      mAr == Mix(6, 5, "40", "0.17", "240", FALSE)
      nAr == IF mAr.mixes THEN Chem(mAr.d, Rl(mAr, 5), 5, 2, 10, 9) ELSE mAr.d
      mH == Mix(7, 6, "1", "-0.38", "320", FALSE)
      nH == IF mH.mixes THEN Chem3(Chem(mH.d, LET q == Cpdm[6][2] w == Abs(Cpdl[2][18]) bb == mH.b IN (Ln(((b28 ** q) ** w) // bb)), 6, 2, 12, 11), 6, (Cpdm[6][4]) ** (Cpdl[2][21]), 2, 20, 19) ELSE mH.d
      mN == Mix(8, 7, "14", "0", "450", FALSE)
      nN == IF mN.mixes THEN Chem3(Chem(mN.d, LET q == Cpdm[7][2] w == Abs(Cpdl[1][3]) bb == mN.b IN (Ln(((b28 ** q) ** w) // bb)), 7, 1, 2, 1), 7, (Cpdm[7][4]) ** (Cpdl[1][6]), 1, 5, 4) ELSE mN.d
      tho == (Cpdm[8][10]) ** (Cpdl[1][7])
      hot == Densu(z, Db(9, 8), tho, tho, "16", "0", zlb, s, zn, tn, tg, gs, re).d
      nOh == LET zs == Cpdm[8][6] zm == Cpdm[8][5] h == Scalh(zm, "16", tho, gs, re) IN (hot ** Exp((Neg(zs) // h) ** (Exp(Neg(z -- zm) // zs) -- "1")))
  IN [He |-> nHe, O |-> nO, N2 |-> n28, O2 |-> nO2, Ar |-> nAr, H |-> nH, N |-> nN, Oa |-> nOh, Tinf |-> tinf, T |-> U(z, "1", "0", "0").t, dm28 |-> dm28, tn |-> tn, tg |-> tg]
Tot(n) == LET a == n.He b == n.O c == n.N2 d == n.O2 e == n.Ar f == n.H h == n.N IN R("1.66E-24" ** ((((((("4" ** a) ++ ("16" ** b)) ++ ("28" ** c)) ++ ("32" ** d)) ++ ("40" ** e)) ++ f) ++ ("14" ** h)))
\* number densities in 1/cm3
Msis(g) ==
  LET gs == GSurf(g.lat)  re == REff(g.lat)  z == g.alt
      u == Thermo(g, RMax(z, "72.5"), gs, re)
  IN IF z \succeq "72.5" THEN u
     ELSE LET ah == IF Hist(g) THEN ApHist(g, Cpd[8]) ELSE R("0")
              Node(k) == LET pp == Cpma[k] a == pp[1] b == Cpavgm[k] IN ((a ** b) // ("1" -- Globs(pp, g, ah)))
              Slope(k, j, t) == LET a == Cpavgm[k + 0] pp == Cpma[j] b == pp[1] c == Cpma[j - (IF j = 10 THEN 7 ELSE 1)][1] d == Cpavgm[j - (IF j = 10 THEN 7 ELSE 1)] IN (((((a ** b) ** ("1" ++ Globs(pp, g, ah))) ** t) ** t) // ((c ** d) ^^ "2"))
              t2 == <<u.tn[5], Node(1), Node(2), Node(3)>>
              g2 == <<u.tg, Slope(9, 10, t2[4])>>
              t3 == <<t2[4], Node(4), Node(5), Node(6), Node(7)>>
              g3 == <<g2[2], Slope(8, 8, t3[5])>>
              n2 == <<R("72.5"), R("55"), R("45"), R("32.5")>>
              n3 == <<R("32.5"), R("20"), R("15"), R("10"), R("0")>>
              dmc == IF z \succ "62.5" THEN R("1" -- (("72.5" -- z) // "10")) ELSE R("0")
              M(d, xm) == Densm(z, d, xm, n3, t3, g3, n2, t2, g2, gs, re)
              un2 == u.N2  dm28 == u.dm28
              w == M(dm28, Cpdm[3][5])
              wd == w.d
              n2d == (wd ** ("1" ++ (((un2 // dm28) -- "1") ** dmc)))
              F(x, k) == LET q == Cpdm[k][2] IN ((n2d ** q) ** ("1" ++ (((x // (un2 ** q)) -- "1") ** dmc)))
          IN [He |-> F(u.He, 1), O |-> R("0"), N2 |-> n2d, O2 |-> F(u.O2, 4), Ar |-> F(u.Ar, 5), H |-> R("0"), N |-> R("0"), Oa |-> R("0"), Tinf |-> u.Tinf, T |-> M("1", "0").t]
=============================================================================
