------------------------------ MODULE Fittings ------------------------------
(* Loss coefficients of entrances, exits, bends, contractions and diffusers.  *)
EXTENDS Curved, FittingsData
Rev(c) == [i \in 1 .. Len(c) |-> c[Len(c) + 1 - i]]
Horner(c, x) == Poly(Rev(c), x)
Clamp(x, lo, hi) == (RMin(RMax(x, lo), hi))
\* bilinear in a table: rows along y, columns along x; the edge values outside
Bilinear(x, xs, y, ys, t) == Interp(y, ys, [i \in 1 .. Len(t) |-> Interp(x, xs, t[i])])

\* entrances
EntranceSharp(m) == CASE m = "Rennels" -> R("0.57") [] m = "Miller" -> R("0.5092676683721356") [] OTHER -> R("0.5")
EntranceDistance(m, Di, t, l) ==
  LET r == (t // Di) IN
  CASE m = "Rennels" -> LET x == (RMin(r, "0.05")) IN ((("1.12" -- ("22" ** x)) ++ (("216" ** x) ** x)) ++ ((("80" ** x) ** x) ** x))
    [] m = "Miller" -> Horner(D_en_distance_Miller_coeffs, ((RMin(r, "0.3") -- "0.15") // "0.15"))
    [] m = "Idelchik" -> (RMax("0", Bilinear(RMin(l // Di, "10"), D_en_distance_Idelchik_l_Di, RMin(r, "1"), D_en_distance_Idelchik_t_Di, D_en_distance_Idelchik_dat)))
    [] m = "Harris" -> BSpl(D_en_distance_Harris_tck[1], D_en_distance_Harris_tck[2], D_en_distance_Harris_tck[3], (RMin(r, "0.289145")))
    [] m = "Crane" -> R("0.78")
EntranceDistance45(Di, Di0) == Horner(D_en_distance_45_Miller_coeffs, ((RMin(((Di0 -- Di) // "2") // Di, "0.3") -- "0.15") // "0.15"))
EntranceAngled(a) == LET c == (Cos((a ** "3.141592653589793") // "180")) IN (("0.57" ++ ("0.3" ** c)) ++ (("0.2" ** c) ** c))
EntranceRounded(m, Di, rc) ==
  LET r == (rc // Di) IN
  CASE m = "Rennels" -> LET g == (("1" -- ("0.3" ** Sqrt(r))) -- ("0.7" ** r))  l == R("1" ++ (((("0.622" ** g) ** g) ** g) ** g)) IN (IF (r \succ "1") THEN "0.03" ELSE ((("0.0696" ** ("1" -- ("0.569" ** r))) ** l) ** l) ++ ((l -- "1") ^^ "2"))
    [] m = "Swamee" -> R("0.5" // ("1" ++ ("36" ** (r ^^ "1.2"))))
    [] m = "Crane" -> Interp(r, D_en_rounded_ratios_Crane, D_en_rounded_Ks_Crane)
    [] m = "Miller" -> Horner(D_en_rounded_Miller_coeffs, ((RMin(r, "0.3") -- "0.15") // "0.15"))
    [] m = "Harris" -> IF r \succ "0.16" THEN R("0") ELSE BSpl(D_en_rounded_Harris_tck[1], D_en_rounded_Harris_tck[2], D_en_rounded_Harris_tck[3], r)
    [] m = "Idelchik" -> IF r \succ "0.2" THEN R("0.03") ELSE BSpl(D_en_rounded_Idelchik_tck[1], D_en_rounded_Idelchik_tck[2], D_en_rounded_Idelchik_tck[3], r)
Bevel(D, l, angle) == LET u == (angle // "90") IN (("1" -- u) ** (u ^^ ("1" // ("1" ++ (l // D)))))
EntranceBeveled(m, Di, l, angle) ==
  IF m = "Idelchik" THEN Bilinear(R("2" ** angle), D_en_beveled_Idelchik_angles, (l // Di), D_en_beveled_Idelchik_l_Di, D_en_beveled_Idelchik_dat)
  ELSE LET x == (l // Di)  c == Bevel(Di, l, angle)  lb == R("1" ++ ("0.622" ** ("1" -- (("1.5" ** c) ** (x ^^ (("1" -- (x ^^ "0.25")) // "2")))))) IN (((("0.0696" ** ("1" -- (c ** x))) ** lb) ** lb) ++ ((lb -- "1") ^^ "2"))
EntranceBeveledOrifice(Di, Do, l, angle) ==
  LET x == (l // Do)  c == Bevel(Do, l, angle)  lb == R("1" ++ ("0.622" ** ("1" -- (c ** (x ^^ (("1" -- (x ^^ "0.25")) // "2")))))) IN (((("0.0696" ** ("1" -- (c ** x))) ** lb) ** lb) ++ ((lb -- ((Do // Di) ^^ "2")) ^^ "2"))

\* bends; fs, fr: friction factor of the smooth and of the actual pipe at min(Re, 1e6)
KbSteps == <<"0.1", "0.15", "0.2", "0.25", "1">>
COutlet(i, x) == IF x \succeq D_br_Miller_C_o_limits[i] THEN R("1") ELSE IF x \preceq "0.01" THEN D_br_Miller_C_o_limit_0_01[i]
                 ELSE BSpl(D_tck_br_Miller_C_os[i][1], D_tck_br_Miller_C_os[i][2], D_tck_br_Miller_C_os[i][3], x)
Outlet(Kb, Di, L) ==
  LET k == Clamp(Kb, "0.1", "1")  x == (RMin(L // Di, "30"))
      i == CHOOSE j \in 1 .. 4 : k \preceq R(KbSteps[j + 1]) /\ \A q \in 1 .. j - 1 : ~(k \preceq R(KbSteps[q + 1]))
      lo == R(KbSteps[i])  hi == R(KbSteps[i + 1])  cl == COutlet(i, x)  ch == COutlet(i + 1, x)
  IN (cl ++ (((k -- lo) // (hi -- lo)) ** (ch -- cl)))
CRe(Re, rr) == BSpl2(D_tck_br_Miller_C_Re, (Log10(Re)), rr)
CReSharp(Kb, Re) == LET c1 == IF Re \prec "207956.58904584477" THEN CRe(Re, R("1")) ELSE R("1")
                        c == (Kb // ((Kb -- ("0.2" ** c1)) ++ "0.2")) IN IF c \succ "2.2" \/ c \prec "0" THEN R("2.2") ELSE c
BendMiller(Di, angle, Re, rc, L, fs, fr) ==
  LET rr == Clamp((rc // Di), "0.5", "10")
      Kb == BSpl2(D_tck_br_Miller, rr, (RMax(angle, "10")))
      re == Clamp(Re, "1e4", "1e8")
      cre == IF rr \succeq "2" THEN CRe(re, R("2"))
             ELSE IF rr \preceq "1" THEN IF rr \succ "0.7" \/ Kb \prec "0.4" THEN IF re \prec "207956.58904584477" THEN CRe(re, R("1")) ELSE R("1") ELSE CReSharp(Kb, re)
             ELSE IF re \succ "1048884.4656835075" \/ re \succ Horner(D_br_Miller_C_Re_limit_1, rr) THEN R("1") ELSE CRe(re, rr)
  IN ((((Kb ** cre) ** fr) // fs) ** Outlet(Kb, Di, L))
MiterMiller(Di, angle, Re, L, fs, fr) ==
  LET Kb == Horner(D_bend_miter_Miller_coeffs, ((RMin(angle, "120") -- "60") // "60")) IN ((((Kb ** CReSharp(Kb, Clamp(Re, "1e4", "1e8"))) ** fr) // fs) ** Outlet(Kb, Di, L))
BendCrane(Di, angle, rc, ft) ==
  LET rr == Clamp((rc // Di), "1", "20")  K == (ft ** Horner(D_br_Crane_coeffs, (rr -- "10.5") // "9.5")) IN ((((angle // "90") -- "1") ** (((("3.141592653589793" // "4") ** ft) ** rr) ++ (K // "2"))) ++ K)
BendIto(Di, angle, Re, rc) ==
  LET x == (Di // rc)
      al == IF rc \succ R("50" ** Di) THEN R("1") ELSE Interp(angle, <<"45", "90", "180">>,
              <<R("1" ++ ("5.13" ** (x ^^ "1.47"))), (IF ((rc // Di) \prec "9.85") THEN "0.95" ++ ("4.42" ** (x ^^ "1.96")) ELSE "1"), R("1" ++ ("5.06" ** (x ^^ "4.52")))>>)
      Dc == R("2" ** rc)
      fc == IF Re \prec ReCrit("Srinivasan", Di, Dc) THEN (Laminar(Re) ** Factor("White", Re, Di, Dc)) ELSE Whole("Srinivasan turbulent", Re, Di, Dc)
  IN (IF (((Re ** x) ** x) \preceq "360") THEN (((("0.0175" ** al) ** fc) ** angle) ** rc) // Di ELSE ((("0.00431" ** al) ** angle) ** (Re ^^ "-0.17")) ** ((rc // Di) ^^ "0.84"))
BendRennels(Di, angle, rc, fd) == LET al == Rad(angle)  s == (Sin(al // "2")) IN (((((fd ** al) ** rc) // Di) ++ (("0.1" ++ ("2.4" ** fd)) ** s)) ++ ((("6.6" ** fd) ** (Sqrt(s) ++ s)) // ((rc // Di) ^^ (("4" ** al) // "3.141592653589793"))))
BendSwamee(Di, angle, rc) == (("0.0733" ++ ("0.923" ** ((Di // rc) ^^ "3.5"))) ** Sqrt(Rad(angle)))
BendCraneStandard(angle, ft) == (IF (angle \prec "90") THEN ft ** ("16" ++ (((angle -- "45") ** "14") // "45")) ELSE ft ** ("30" ++ (((angle -- "90") ** "20") // "90")))
Miter(m, angle, ft, Re) ==
  CASE m = "Rennels" -> LET s == (Sin(Rad(angle) // "2")) IN (("0.42" ** s) ++ ("2.56" ** (s ^^ "3")))
    [] m = "Crane" -> (ft ** Interp(angle, D_bend_miter_Crane_angles, D_bend_miter_Crane_fds))
    [] m = "Blevins" -> (Interp(angle, D_bend_miter_Blevins_angles, D_bend_miter_Blevins_Ks) ** (("2e5" // Re) ^^ "0.2"))
Helix(Di, rs, p, N, fd) == (N ** ((((fd ** Sqrt(((("2" ** "3.141592653589793") ** rs) ^^ "2") ++ (p ** p))) // Di) ++ "0.2") ++ ("4.8" ** fd)))
Spiral(Di, rmax, rmin, p, fd) == ((((rmax -- rmin) // p) ** (((((fd ** "3.141592653589793") ** (rmax ++ rmin)) // Di) ++ "0.2") ++ ("4.8" ** fd))) ++ (("13.2" ** fd) // ((rmin // Di) ^^ "2")))

\* contractions, beta = d2/d1 < 1
B5(b) == ((("0.215" ** b) ** b) ++ ("0.785" ** (b ^^ "5")))
HooperContraction(b, Re, fd) == LET r == R("1" // b)  k == (IF (Re \preceq "2500") THEN ("1.2" ++ ("160" // Re)) ** ((r ^^ "4") -- "1") ELSE ((("0.6" ++ ("0.48" ** fd)) ** r) ** r) ** ((r ** r) -- "1")) IN (k ** (b ^^ "4"))
CraneContraction(b, th) == (IF (th \prec ("3.141592653589793" // "4")) THEN ("0.8" ** Sin(th // "2")) ** ("1" -- (b ** b)) ELSE ("0.5" ** Sqrt(Sin(th // "2"))) ** ("1" -- (b ** b)))
ContractionSharp(m, D1, D2, Re, fd) ==
  LET b == (D2 // D1) IN
  CASE m = "Rennels" -> LET l == R("1" ++ ("0.622" ** ("1" -- B5(b)))) IN (((("0.0696" ** ("1" -- (b ^^ "5"))) ** l) ** l) ++ ((l -- "1") ^^ "2"))
    [] m = "Hooper" -> HooperContraction(b, Re, fd)
    [] m = "Crane" -> CraneContraction(b, R("3.141592653589793"))
ContractionRound(m, D1, D2, rc) ==
  LET b == (D2 // D1)  x == (rc // D2) IN
  CASE m = "Rennels" -> LET g == (("1" -- ("0.3" ** Sqrt(x))) -- ("0.7" ** x))  l == R("1" ++ (("0.622" ** (g ^^ "4")) ** ("1" -- B5(b))))
                        IN (((((("0.0696" ** ("1" -- ("0.569" ** x))) ** ("1" -- (Sqrt(x) ** b))) ** ("1" -- (b ^^ "5"))) ** l) ** l) ++ ((l -- "1") ^^ "2"))
    [] m = "Miller" -> (RMax("0", BSpl2(D_tck_contraction_abrupt_Miller, b ** b, RMin(x, "0.1"))))
    [] m = "Idelchik" -> (Interp(x, D_contraction_round_Idelchik_ratios, D_contraction_round_Idelchik_factors) ** ("1" -- (b ** b)))
\* th: full angle of the cone; l: its length
ConeAngle(D1, D2, l) == R("2" ** Atan(Abs(D1 -- D2) // ("2" ** l)))
ConeLength(D1, D2, th) == (Abs(D1 -- D2) // ("2" ** Tan(th // "2")))
Deg(x) == ((x ** "180") // "3.141592653589793")
FrIdelchik(th, ar) == Bilinear(Clamp(Deg(th), "2", "20"), D_cc_angles_Idelchik, Clamp(ar, "0.05", "0.6"), D_cc_A_ratios_Idelchik, D_cc_friction_Idelchik)
ContractionConical(m, D1, D2, l, th, Re, fd) ==
  LET b == (D2 // D1) IN
  CASE m = "Rennels" -> LET lb == R("1" ++ (("0.622" ** ((th // "3.141592653589793") ^^ "0.8")) ** ("1" -- B5(b))))
                        IN ((((fd ** ("1" -- (b ^^ "4"))) // ("8" ** Sin(th // "2"))) ++ (((("0.0696" ** Sin(th // "2")) ** ("1" -- (b ^^ "5"))) ** lb) ** lb)) ++ ((lb -- "1") ^^ "2"))
    [] m = "Crane" -> CraneContraction(b, th)
    [] m = "Swamee" -> R("0.315" ** (th ^^ ("1" // "3")))
    [] m = "Idelchik" -> ((Bilinear(Deg(th), D_en_beveled_Idelchik_angles, l // D2, D_en_beveled_Idelchik_l_Di, D_en_beveled_Idelchik_dat) ** ("1" -- (b ** b))) ++ FrIdelchik(th, b ** b))
    [] m = "Blevins" -> Bilinear((RMin(l // D2, "0.6")), D_cc_l_ratios_Blevins, Clamp(R("1" // (b ** b)), "1.2", "10"), D_cc_A_ratios_Blevins, D_cc_Ks_Blevins)
    [] m = "Miller" -> Clamp(BSpl2(D_cc_Miller_tck, (Ln(Clamp(("2" ** l) // D2, "0.1", "10"))), (Ln(Clamp("1" // (b ** b), "1.1", "4")))), "0", "0.5")
    [] m = "Hooper" -> (HooperContraction(b, Re, fd) ** (IF (th \succ ("3.141592653589793" // "4")) THEN Sqrt(Sin(th // "2")) ELSE "1.6" ** Sin(th // "2")))
ContractionBeveled(D1, D2, l, angle) ==
  LET b == (D2 // D1)  al == Rad(angle)  c == (((((l // D2) ** "2") ** b) ** Tan(al // "2")) // ("1" -- b))  lb == R("1" ++ (("0.622" ** ("1" ++ (c ** (((al // "3.141592653589793") ^^ "0.8") -- "1")))) ** ("1" -- B5(b))))
  IN ((((("0.0696" ** ("1" ++ (c ** (Sin(al // "2") -- "1")))) ** ("1" -- (b ^^ "5"))) ** lb) ** lb) ++ ((lb -- "1") ^^ "2"))

\* diffusers, beta = d1/d2 < 1
HooperExpansion(b, Re, fd) == LET x == R("1" -- (b ** b)) IN (IF (Re \prec "4000") THEN "2" ** ("1" -- (b ^^ "4")) ELSE (("1" ++ ("0.8" ** fd)) ** x) ** x)
DiffuserSharp(m, D1, D2, Re, fd) == LET b == (D1 // D2) IN IF m = "Hooper" THEN HooperExpansion(b, Re, fd) ELSE (("1" -- (b ** b)) ^^ "2")
CraneDiffuser(b, th) == (IF (th \prec ("3.141592653589793" // "4")) THEN "2.6" ** Sin(th // "2") ELSE "1") ** (("1" -- (b ** b)) ^^ "2")
DiffuserRennels(b, th, fd) ==
  LET d == Deg(th)  b4 == (b ^^ "4")  b6 == (b ^^ "6")  x2 == (("1" -- (b ** b)) ^^ "2")  fr == ((fd ** ("1" -- b4)) // ("8" ** Sin(th // "2")))
      s == (("1.366" ** Sqrt(Sin((("2" ** "3.141592653589793") ** (d -- "15")) // "180"))) -- "0.17")
  IN (IF (d \preceq "20") THEN (("8.3" ** (Tan(th // "2") ^^ "1.75")) ** x2) ++ fr ELSE (IF (d \preceq "60") THEN (IF (b \succeq "0.5") THEN (s ** x2) ++ fr ELSE ((s -- (("3.28" ** ("0.0625" -- b4)) ** Sqrt((d -- "20") // "40"))) ** x2) ++ fr) ELSE (IF (b \succeq "0.5") THEN ("1.205" -- ("0.2" ** Sqrt((d -- "60") // "120"))) ** x2 ELSE (("1.205" -- ("3.28" ** ("0.0625" -- b4))) -- (("12.8" ** b6) ** Sqrt((d -- "60") // "120"))) ** x2)))
DiffuserConical(m, D1, D2, l, th, Re, fd) ==
  LET b == (D1 // D2) IN
  CASE m = "Rennels" -> DiffuserRennels(b, th, fd)
    [] m = "Crane" -> CraneDiffuser(b, th)
    [] m = "Miller" -> (RMax("0", BSpl2(D_tck_dc_Miller, Ln(Clamp(("2" ** l) // D1, "0.1", "20")), Ln(Clamp("1" // (b ** b), "1.1", "4")))))
    [] m = "Idelchik" -> (FrIdelchik(th, b ** b) ++ BSpl2(D_dc_Idelchik_tck, RMin("0.6", b ** b), RMax("3", Deg(th))))
    [] m = "Swamee" -> LET r == R("1" // b) IN ((("0.25" // (th ^^ "3")) ** (("1" ++ ((("0.6" ** (r ^^ "-1.67")) ** ("3.141592653589793" -- th)) // th)) ^^ (("0.533" ** r) -- "2.6"))) ^^ "-0.5")
    [] m = "Hooper" -> (HooperExpansion(b, Re, fd) ** (IF (th \succ ("3.141592653589793" // "4")) THEN "1" ELSE "2.6" ** Sin(th // "2")))
\* stages in series: their sum, each on its own upstream diameter
Staged(m, Ds, ls, fd) == RSum([i \in 1 .. Len(ls) |-> DiffuserConical(m, Ds[i], Ds[i + 1], ls[i], ConeAngle(Ds[i], Ds[i + 1], ls[i]), R("1"), fd)])
DiffuserCurved(D1, D2, l) == LET b == (D1 // D2)  x == (l // D1) IN (((((("1.01" -- ("0.624" ** x)) ++ (("0.3" ** x) ** x)) -- ("0.074" ** (x ^^ "3"))) ++ ("0.007" ** (x ^^ "4"))) ** ("1.43" -- (("1.3" ** b) ** b))) ** (("1" -- (b ** b)) ^^ "2"))
PipeReducer(D1, D2, l, f1, f2) == LET b == (D1 // D2)  al == R("2" ** Atan(((D2 -- D1) // "1.2") // l)) IN (((((f1 ** "0.2") ** l) // D1) ++ (((f1 ** ("1" -- b)) // "8") // Sin(al // "2"))) ++ ((((f2 ** "0.2") ** l) // D2) ** (b ^^ "4")))

Methods_(f) ==
  CASE f = "entrance_sharp" -> {"Rennels", "Swamee", "Blevins", "Idelchik", "Crane", "Miller"}
    [] f = "entrance_distance" -> {"Rennels", "Miller", "Idelchik", "Harris", "Crane"}
    [] f = "entrance_rounded" -> {"Rennels", "Crane", "Miller", "Idelchik", "Harris", "Swamee"}
    [] f = "entrance_beveled" -> {"Rennels", "Idelchik"}
    [] f = "bend_rounded" -> {"Rennels", "Crane", "Crane standard", "Miller", "Swamee", "Ito"}
    [] f = "bend_miter" -> {"Rennels", "Miller", "Crane", "Blevins"}
    [] f = "contraction_sharp" -> {"Rennels", "Hooper", "Crane"}
    [] f = "contraction_round" -> {"Rennels", "Miller", "Idelchik"}
    [] f = "contraction_conical" -> {"Rennels", "Idelchik", "Crane", "Swamee", "Blevins", "Miller", "Hooper"}
    [] f = "diffuser_sharp" -> {"Rennels", "Hooper"}
    [] f = "diffuser_conical" -> {"Rennels", "Crane", "Miller", "Swamee", "Idelchik", "Hooper"}
    [] f = "diffuser_conical_staged" -> {"Rennels", "Crane", "Miller", "Swamee", "Idelchik"}
    [] f \in {"entrance_distance_45_Miller", "entrance_angled", "entrance_beveled_orifice", "exit_normal", "helix", "spiral", "contraction_beveled", "diffuser_curved", "diffuser_pipe_reducer"} -> {""}
Functions == {"entrance_sharp", "entrance_distance", "entrance_rounded", "entrance_beveled", "bend_rounded", "bend_miter", "contraction_sharp", "contraction_round", "contraction_conical",
  "diffuser_sharp", "diffuser_conical", "diffuser_conical_staged", "entrance_distance_45_Miller", "entrance_angled", "entrance_beveled_orifice", "exit_normal", "helix", "spiral",
  "contraction_beveled", "diffuser_curved", "diffuser_pipe_reducer"}
=============================================================================
