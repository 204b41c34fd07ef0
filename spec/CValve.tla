------------------------------- MODULE CValve -------------------------------
(* Control valves: sizing (IEC 60534-2-1), choking, characteristics, noise     *)
(* (IEC 60534-8).  Flows in m^3/h, pressures in kPa and diameters in mm where  *)
(* the standard has them so.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, ValveData
N1 == R("0.1")
N2 == R("1.6e-3")
N4 == R("7.07e-2")
N5 == R("1.8e-3")
N9 == R("24.6")
N18 == R("0.865")
N32 == R("140")
Rho0 == R("999.10329075702327")
GasR == R("8.31446261815324")
CriticalRatio(Psat, Pc) == R("0.96" -- ("0.28" ** Sqrt(Psat // Pc)))
ReValve(nu, Q, D1, FL, Fd, C) == ((((N4 ** Fd) ** Q) // (nu ** Sqrt(C ** FL))) ** ((((((FL ** FL) ** C) ** C) // (N2 ** (D1 ^^ "4"))) ++ "1") ^^ "0.25"))
LossIn(d, D1) == (("1" -- ((d // D1) ^^ "4")) ++ ("0.5" ** (("1" -- ((d // D1) ^^ "2")) ^^ "2")))
LossOut(d, D2) == (((("1" -- ((d // D2) ^^ "2")) ^^ "2") -- "1") ++ ((d // D2) ^^ "4"))
Capped(x) == IF x \prec "1" THEN x ELSE R("1")
\* Reynolds number factor; the shipped full-trim form below Rev = 10 is not limited to 1
Transitional(n, FL, Rev) == R("1" ++ ((("0.33" ** Sqrt(FL)) // (n ^^ "0.25")) ** Log10(Rev // "10000")))
Lam(n, FL, Rev) == (("0.026" // FL) ** Sqrt(n ** Rev))
Factor(FL, C, d, Rev, full) ==
  LET c == (C // (d ** d))
      n == IF full THEN (N2 // ((IF (c \prec "0.04") THEN c ELSE "0.04") ^^ "2")) ELSE R("1" ++ (N32 ** (c ^^ ("2" // "3"))))
      l == IF full THEN Lam(n, FL, Rev) ELSE Capped(Lam(n, FL, Rev))
      t == Transitional(n, FL, Rev)
  IN IF Rev \prec "10" THEN l ELSE IF t \prec l THEN t ELSE l
\* laminar: enlarge by 1.3 until the factor allows it; <<C, FR, Rev of the first pass>>
LamStep(v, Ci) == LET Rev == ReValve(v.nu, v.Q, v.D1, v.FL, v.Fd, Ci) IN <<Factor(v.FL, Ci, v.d, Rev, ~((Ci // (v.d ^^ "2")) \succ R("0.016" ** N18))), Rev>>
RECURSIVE Laminar(_, _, _)
Laminar(C, i, f) == LET Ci == R("1.3" ** C)  v == LamStep(f, Ci)
                        out == <<Ci, v[1], v[2]>> IN IF i < 400 /\ (C // v[1]) \succeq Ci THEN <<Laminar(Ci, i + 1, f)[1], v[1], v[2]>> ELSE out
\* ---- liquids: q has rho, Psat, Pc, mu, P1, P2, Q, FL, Fd, and D1, D2, d or none
ChokedL(dP, P1, Psat, FF, FL) == dP \succeq ((FL ** FL) ** (P1 -- (FF ** Psat)))
FlowL(q, F) == ((((q.Q ** "3600") // N1) // F) ** Sqrt((q.rho // Rho0) // ((q.P1 -- q.P2) // "1000")))
FlowLChoked(q, F, FF) == ((((q.Q ** "3600") // N1) // F) ** Sqrt((q.rho // Rho0) // ((q.P1 -- (FF ** q.Psat)) // "1000")))
PipeL(q, FF, choke, Ci) ==
                    LET d == (q.d ** "1000")  D1 == (q.D1 ** "1000")  D2 == (q.D2 ** "1000")  FL == q.FL
                        s == (((Ci // (d ** d)) ^^ "2") // N2)
                        FP == R("1" // Sqrt("1" ++ ((LossIn(d, D1) ++ LossOut(d, D2)) ** s)))
                        up == IF d \succ D1 THEN R("0") ELSE LossIn(d, D1)
                        FLP == (FL // Sqrt("1" ++ (((FL ** FL) ** up) ** s)))
                        ch == ChokedL((q.P1 -- q.P2), q.P1, q.Psat, FF, (FLP // FP))
                    IN <<IF ch /\ choke THEN FlowLChoked(q, FLP, FF) ELSE FlowL(q, FP), FLP, FP>>
\* ---- gases: q has T, MW, mu, gamma, Z, P1, P2, Q, FL, Fd, xT, and D1, D2, d or none
FlowG(q, F, Y, x) == (((q.Q ** "3600") // (((N9 ** F) ** (q.P1 // "1000")) ** Y)) ** Sqrt(((q.MW ** q.T) ** q.Z) // x))
PipeG(q, Y, choke, Ci) ==
                    LET d == (q.d ** "1000")  D1 == (q.D1 ** "1000")  D2 == (q.D2 ** "1000")
                        s == ((Ci // (d ** d)) ^^ "2")
                        FP == R("1" // Sqrt("1" ++ (((LossIn(d, D1) ++ LossOut(d, D2)) ** s) // N2)))
                        xTP == ((q.xT // (FP ** FP)) // ("1" ++ (((q.xT ** LossIn(d, D1)) // N5) ** s)))
                        Fg == (q.gamma // "1.4")
                        x == ((q.P1 -- q.P2) // q.P1)
                        ch == x \succeq (Fg ** xTP)
                    IN <<FlowG(q, FP, Y, IF ch /\ choke THEN (xTP ** Fg) ELSE x), xTP, FP>>
\* turbulent with fittings: correct until two passes agree within 1 per cent, at most 21 passes; f gives <<C, first factor, second factor>>
Pass(v, Ci) == IF v.gas THEN PipeG(v.q, v.F, v.choke, Ci) ELSE PipeL(v.q, v.F, v.choke, Ci)
RECURSIVE Piping(_, _, _)
Piping(Ci, i, f) == LET v == Pass(f, Ci) IN IF (Ci // v[1]) \prec "0.99" /\ i < 20 /\ Ci \prec "1e40" THEN LET w == Piping(v[1], i + 1, f) IN <<w[1], v[2], v[3], w[4]>> ELSE <<v[1], v[2], v[3], i = 20 \/ Ci \succeq "1e40">>
None == "None"
\* answer: Kv, choked (bare valve), regime, reported factors
SizeL(q, choke, laminar, pipe) ==
  LET FF == CriticalRatio(q.Psat, q.Pc)
      ch == ChokedL((q.P1 -- q.P2), q.P1, q.Psat, FF, q.FL)
      C0 == IF ch /\ choke THEN FlowLChoked(q, q.FL, FF) ELSE FlowL(q, R("1"))
      nu == (q.mu // q.rho)
      D1 == (q.D1 ** "1000")  d == (q.d ** "1000")
      Rev == IF pipe THEN ReValve(nu, (q.Q ** "3600"), D1, q.FL, q.Fd, C0) ELSE R("1e5")
      turb == Rev \succ "10000"
      fit == pipe /\ (~REq(q.D1, q.d) \/ ~REq(q.D2, q.d))
      base == [Kv |-> C0, FF |-> FF, choked |-> ch, laminar |-> ~turb, Rev |-> Rev, FP |-> None, F2 |-> None, FR |-> None, warn |-> FALSE]
  IN IF pipe /\ (turb \/ ~laminar) /\ fit THEN LET w == Piping(C0, 0, [gas |-> FALSE, q |-> q, F |-> FF, choke |-> choke]) IN [base EXCEPT !.Kv = w[1], !.F2 = w[2], !.FP = w[3], !.warn = w[4]]
     ELSE IF pipe /\ ~turb /\ laminar THEN LET w == Laminar(C0, 0, [nu |-> nu, Q |-> (q.Q ** "3600"), D1 |-> D1, d |-> d, FL |-> q.FL, Fd |-> q.Fd]) IN [base EXCEPT !.Kv = w[1], !.FR = w[2], !.Rev = w[3]]
     ELSE base
SizeG(q, choke, laminar, pipe) ==
  LET Fg == (q.gamma // "1.4")
      x == ((q.P1 -- q.P2) // q.P1)
      y == R("1" -- (x // (("3" ** Fg) ** q.xT)))
      Y == (IF (y \succeq ("2" // "3")) THEN y ELSE "2" // "3")
      ch == x \succeq (Fg ** q.xT)
      C0 == FlowG(q, R("1"), Y, IF ch /\ choke THEN (Fg ** q.xT) ELSE x)
      rho == (((q.MW // "1000") ** q.P1) // ((q.Z ** GasR) ** q.T))
      nu == (q.mu // rho)
      D1 == (q.D1 ** "1000")  d == (q.d ** "1000")
      Rev == IF pipe THEN ReValve(nu, (q.Q ** "3600"), D1, q.FL, q.Fd, C0) ELSE R("1e5")
      turb == Rev \succ "10000"
      fit == pipe /\ (~REq(q.D1, q.d) \/ ~REq(q.D2, q.d))
      base == [Kv |-> C0, Y |-> Y, choked |-> ch, laminar |-> ~turb, Rev |-> IF pipe THEN Rev ELSE None, FP |-> None, F2 |-> None, FR |-> None, warn |-> FALSE]
  IN IF pipe /\ (turb \/ ~laminar) /\ fit THEN LET w == Piping(C0, 0, [gas |-> TRUE, q |-> q, F |-> Y, choke |-> choke]) IN [base EXCEPT !.Kv = w[1], !.F2 = w[2], !.FP = w[3], !.warn = w[4]]
     ELSE IF pipe /\ ~turb /\ laminar THEN LET w == Laminar(C0, 0, [nu |-> nu, Q |-> (q.Q ** "3600"), D1 |-> D1, d |-> d, FL |-> q.FL, Fd |-> q.Fd]) IN [base EXCEPT !.Kv = w[1], !.FR = w[2], !.Rev = w[3]]
     ELSE base
\* pressures at which choking begins
ChokeL2(Psat, Pc, FL, P1) == (P1 -- ((FL ** FL) ** (P1 -- (CriticalRatio(Psat, Pc) ** Psat))))
ChokeL1(Psat, Pc, FL, P2) == ((P2 -- (((FL ** FL) ** CriticalRatio(Psat, Pc)) ** Psat)) // ("1" -- (FL ** FL)))
ChokeG2(xT, gamma, P1) == (P1 ** ("1" -- ((gamma // "1.4") ** xT)))
ChokeG1(xT, gamma, P2) == (P2 // ("1" -- ((gamma // "1.4") ** xT)))
\* scales
CvPerKv == R("1.1560992283536566")
AvPerCv == ((Sqrt(Rho0 // "6894.757293168361") ** "0.0037854117839999997") // "60")
ToKv(x, s) == CASE s = "Kv" -> x [] s = "Cv" -> (x // CvPerKv) [] s = "Av" -> ((x // AvPerCv) // CvPerKv)
FromKv(x, s) == CASE s = "Kv" -> x [] s = "Cv" -> (x ** CvPerKv) [] s = "Av" -> ((x ** CvPerKv) ** AvPerCv)
\* inherent characteristics: cubic splines through published points; linear
Quick(x) == BSpl(V_opening_quick_tck[1], V_opening_quick_tck[2], 3, x)
EqualPct(x) == BSpl(V_opening_equal_tck[1], V_opening_equal_tck[2], 3, x)
\* ---- noise
Sq(x) == (x ** x)
Pow10(x) == (Exp("2.302585092994046" ** x))
NBands == Len(V_fis_l_2015)
Weighted(l, i) == (Exp("0.23025850929940458" ** (l ++ R(V_A_weights_l_2015[i]))))
Total(ls) == R("10" ** Log10(ls))
Freq(i) == R(V_fis_l_2015[i])
NoiseL(q) ==
  LET C == (CvPerKv ** q.Kv)  P1 == q.P1  P2 == q.P2  Psat == q.Psat  FL == q.FL  Fd == q.Fd  Di == q.Di
      xF == ((P1 -- P2) // (P1 -- Psat))
      full == ((FL ** FL) ** (P1 -- Psat))
      dPc == (IF ((P1 -- P2) \prec full) THEN P1 -- P2 ELSE full)
      xFz == IF q.xFz = None THEN R("0.9" // Sqrt("1" ++ (("3" ** Fd) ** Sqrt(C // ("1.17" ** FL))))) ELSE q.xFz
      xc == (xFz ** (("600000" // P1) ^^ "0.125"))
      Dj == (("0.0046" ** Fd) ** Sqrt(C ** FL))
      U == (Sqrt(("2" ** dPc) // q.rho) // FL)
      Wm == ((((("0.5" ** q.m) ** U) ** U) ** FL) ** FL)
      cav == xF \succ xc
      et == ((Pow10(q.An) ** U) // q.c)
      ec == IF cav THEN (((((("0.32" ** et) ** Sqrt((P1 -- P2) // (dPc ** xc))) ** Exp("5" ** xc)) ** Sqrt(("1" -- xc) // ("1" -- xF))) ** ((xF // xc) ^^ "5")) ** ((xF -- xc) ^^ "1.5")) ELSE R("0")
      Lpi == R("10" ** Log10((((("3.2e9" ** (et ++ ec)) ** Wm) ** q.rho) ** q.c) // (Di ** Di)))
      St == (((((("0.036" ** FL) ** FL) ** C) ** (Fd ^^ "0.75")) // (("1.17" ** (xc ^^ "1.5")) ** (q.d ^^ "2"))) // ((P1 -- Psat) ^^ "0.57"))
      ft == ((St ** U) // Dj)
      fc == ((("6" ** ft) ** ((("1" -- xF) // ("1" -- xc)) ^^ "2")) ** ((xc // xF) ^^ "2.5"))
      fr == (q.c_pipe // ("3.141592653589793" ** Di))
      TLr == (("0" -- "10") -- ("10" ** Log10(((q.c_pipe ** q.rho_pipe) ** q.t_pipe) // ((q.c_air ** q.rho_air) ** Di))))
      side == R("10" ** Log10(((Di ++ ("2" ** q.t_pipe)) ++ "2") // (Di ++ ("2" ** q.t_pipe))))
      Ft(f) == R("0.15848931924611134" // (("0.25" ** ((f // ft) ^^ "3")) ++ (ft // f)))
      Fc(f) == R("0.12589254117941673" // (("0.25" ** ((f // fc) ^^ "1.5")) ++ ((fc // f) ^^ "1.5")))
      Band(i) == LET f == Freq(i) IN ((((Lpi ++ ("10" ** Log10((IF cav THEN ((et ** Ft(f)) ++ (ec ** Fc(f))) // (et ++ ec) ELSE Ft(f))))) ++ TLr) -- ("20" ** Log10((fr // f) ++ ((f // fr) ^^ "1.5")))) -- side)
  IN Total(RSum([i \in 1 .. NBands |-> Weighted(Band(i), i)]))
Less(x, y) == IF x \prec y THEN x ELSE y
NoiseG(q) ==
  LET C == (CvPerKv ** q.Kv)  k == q.gamma  P1 == q.P1  P2 == q.P2  m == q.m  Di == q.Di  d == q.d  t == q.t_pipe
      F == IF q.FLP # None /\ q.FP # None THEN (q.FLP // q.FP) ELSE q.FL
      x == ((P1 -- P2) // P1)
      xv == R("1" -- (("2" // (k ++ "1")) ^^ (k // (k -- "1"))))
      xc == ((F ** F) ** xv)
      al == (("1" -- xv) // ("1" -- xc))
      xB == R("1" -- ((("1" // k) ^^ (k // (k -- "1"))) // al))
      xE == R("1" -- ("1" // ("22" ** al)))
      reg == IF x \preceq xc THEN 1 ELSE IF x \preceq xv THEN 2 ELSE IF x \preceq xB THEN 3 ELSE IF x \preceq xE THEN 4 ELSE 5
      Dj == (("0.0046" ** q.Fd) ** Sqrt(C ** F))
      M5 == (Sqrt(("2" // (k -- "1")) ** (("22" ^^ ((k -- "1") // k)) -- "1")))
      Mv == (Sqrt(("2" // (k -- "1")) ** ((("1" -- (x // (F ** F))) ^^ (("1" -- k) // k)) -- "1")))
      Mj == Less((Sqrt(("2" // (k -- "1")) ** ((("1" // (al ** ("1" -- x))) ^^ ((k -- "1") // k)) -- "1"))), M5)
      cv == (Sqrt(((k ** P1) // q.rho) ** (("1" -- (x // (F ** F))) ^^ ((k -- "1") // k))))
      cc == (Sqrt(((("2" ** k) ** P1) // (k ++ "1")) // q.rho))
      Wm == IF reg = 1 THEN (("0.5" ** m) ** ((Mv ** cv) ^^ "2")) ELSE ((("0.5" ** m) ** cc) ** cc)
      fp == CASE reg = 1 -> (((q.Stp ** Mv) ** cv) // Dj) [] reg \in {2, 3} -> (((q.Stp ** Mj) ** cc) // Dj) [] reg = 4 -> (((("1.4" ** q.Stp) ** cc) // Dj) // Sqrt((Mj ** Mj) -- "1")) [] reg = 5 -> (((("1.4" ** q.Stp) ** cc) // Dj) // Sqrt((M5 ** M5) -- "1"))
      ef == Pow10(q.An)
      p2 == (Exp((("0.34657359027997264" ** "6.6") ** F) ** F))    \* sqrt(2) to the power 6.6 F^2
      eta == CASE reg = 1 -> (((ef ** F) ** F) ** (Mv ^^ "3")) [] reg = 2 -> (((ef ** x) // xv) ** (Mj ^^ (("6.6" ** F) ** F))) [] reg = 3 -> (ef ** (Mj ^^ (("6.6" ** F) ** F))) [] reg = 4 -> (((("0.5" ** ef) ** Mj) ** Mj) ** p2) [] reg = 5 -> (((("0.5" ** ef) ** M5) ** M5) ** p2)
      rho2 == ((q.rho ** P2) // P1)
      c2 == (Sqrt(((k ** GasR) ** q.T2) // (q.MW // "1000")))
      M2 == (("4" ** m) // (((("3.141592653589793" ** Di) ** Di) ** rho2) ** c2))
      Lg == R("0" -- ("16" ** Log10("1" -- (IF (M2 \prec "0.3") THEN M2 ELSE "0.3"))))
      fast == M2 \succ "0.3"
      UR == ((((("4" ** m) // ((("3.141592653589793" ** rho2) ** Di) ** Di)) ** Di) ** Di) // ((q.beta ** d) ** d))
      WR == ((((((ef ** ((UR // c2) ^^ "3")) ** "0.5") ** m) ** UR) ** UR) ** ((("1" -- ((d ** d) // (Di ** Di))) ^^ "2") ++ "0.2"))
      fR == ((q.Stp ** UR) // d)
      LpR == (("10" ** Log10(((("3.2e9" ** WR) ** rho2) ** c2) // (Di ** Di))) ++ Lg)
      Lp == (("10" ** Log10((((("3.2e9" ** eta) ** Wm) ** rho2) ** c2) // (Di ** Di))) ++ Lg)
      fr == (q.c_pipe // ("3.141592653589793" ** Di))
      fo == ((("0.25" ** fr) ** c2) // q.c_air)
      fg == ((Sqrt("3") ** (q.c_air ^^ "2")) // (("3.141592653589793" ** t) ** q.c_pipe))
      dTL == (IF (d \succ "0.15") THEN "0" ELSE (IF (d \succeq "0.05") THEN (("35.8" -- ("813" ** d)) ++ (("6370" ** d) ** d)) -- ("16660" ** (d ^^ "3")) ELSE "9"))
      Shape(f, p) == R("8" ++ ("10" ** Log10(("1" ++ ((("0.5" ** f) // p) ^^ "2.5")) ** ("1" ++ ((("0.5" ** p) // f) ^^ "1.7")))))
      Gx(f) == (IF (f \prec fo) THEN ((fo // fr) ^^ ("2" // "3")) ** ((f // fo) ^^ "4") ELSE (IF (f \prec fr) THEN Sqrt(f // fr) ELSE "1"))
      Gy(f) == (IF (f \prec fo) THEN (IF (fo \prec fg) THEN fo // fg ELSE "1") ELSE (IF (f \prec fg) THEN f // fg ELSE "1"))
      TL(f) == (("10" ** Log10((((("8.25e-7" ** ((c2 // (t ** f)) ^^ "2")) ** Gx(f)) // ((((rho2 ** c2) ++ ((((("2" ** "3.141592653589793") ** t) ** f) ** q.rho_pipe) ** Sqrt("0.01" // f))) // ("415" ** Gy(f))) ++ "1")) ** q.P_air) // "101325")) -- dTL)
      In(f) == LET a == (Lp -- Shape(f, fp))  b == (LpR -- Shape(f, fR)) IN IF fast THEN R("10" ** Log10(Pow10(a // "10") ++ Pow10(b // "10"))) ELSE a
      Band(i) == LET f == Freq(i) IN ((In(f) ++ TL(f)) -- ("10" ** Log10(((Di ++ ("2" ** t)) ++ "2") // (Di ++ ("2" ** t)))))
  IN Total(RSum([i \in 1 .. NBands |-> Weighted(Band(i), i)]))
=============================================================================
