------------------------------- MODULE Relief -------------------------------
(* Relief valves (API 520, 526), flare and relief noise (API 521, VDI 3732).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, ReliefData
Atm == R("101325")
Inch2 == R("6.4516e-4")
Sizes == [i \in 1 .. Len(A_API526_A_sq_inch) |-> R(A_API526_A_sq_inch[i]) ** Inch2]
NSizes == Len(A_API526_A_sq_inch)
Fits(A) == {i \in 1 .. NSizes : Sizes[i] \succeq A}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
RoundSize(A) == Sizes[Least(Fits(A))]
CoefC(k) == IF REq(k, "1") THEN R("0.03948" ** Exp("0" -- "0.5")) ELSE R("0.03948" ** Sqrt(k ** (("2" // (k ++ "1")) ^^ ((k ++ "1") // (k -- "1")))))
F2(k, P1, P2) == LET r == P2 // P1 IN (Sqrt((((k // (k -- "1")) ** (r ^^ ("2" // k))) ** ("1" -- (r ^^ ((k -- "1") // k)))) // ("1" -- r)))
KN(P1) == (IF (P1 \preceq "10339000") THEN "1" ELSE ((("0.02764" ** P1) // "1000") -- "1000") // ((("0.03324" ** P1) // "1000") -- "1061"))
Bilin(xs, ys, z, x, y) == Interp(y, ys, [j \in 1 .. Len(ys) |-> Interp(x, xs, z[j])])
\* the tabulated superheat corrections; "refused" outside the tables
Superheat(T, P, ed) ==
  IF T \succ "922.15" THEN "refused"
  ELSE CASE ed = "7E" -> IF P \succ "20780325" THEN "refused" ELSE IF T \prec "422.15" THEN R("1") ELSE Bilin(A_KSH_tempKs_7E, A_KSH_Pa_7E, A_KSH_factors_7E, T, P)
         [] ed = "10E" -> IF T \prec "478.15" THEN R("1") ELSE IF P \succ "22063223.338138755" THEN "refused" ELSE Bilin(A_KSH_K_10E, A_KSH_Pa_10E, A_KSH_factors_10E, T, P)
         [] OTHER -> "refused"
Gauge(Pset, Pback) == (((Pback -- Atm) // (Pset -- Atm)) ** "100")
Kb(g, over) == CASE REq(over, "0.1") -> IF g \prec "30" THEN R("1") ELSE IF g \succ "50" THEN "refused" ELSE Interp(g, A_Kb_10_over_x, A_Kb_10_over_y)
                 [] REq(over, "0.16") -> IF g \prec "38" THEN R("1") ELSE IF g \succ "50" THEN "refused" ELSE Interp(g, A_Kb_16_over_x, A_Kb_16_over_y)
                 [] REq(over, "0.21") -> IF g \succ "50" THEN "refused" ELSE R("1")
                 [] OTHER -> "refused"
Kw(g) == IF g \prec "15" THEN R("1") ELSE Interp(g, A_Kw_x, A_Kw_y)
Kvis(Re, ed) == CASE ed = "7E" -> LET f == R("1" // (("0.9935" ++ ("2.878" // Sqrt(Re))) ++ ("342.75" // (Re ^^ "1.5")))) IN (IF (f \prec "1") THEN f ELSE "1")
                  [] ed = "10E" -> R("1" // Sqrt(("170" // Re) ++ "1")) [] OTHER -> "refused"
Critical(P1, P2, k) == P2 \prec (P1 ** (("2" // (k ++ "1")) ^^ (k // (k -- "1"))))
AreaG(m, T, Z, MW, k, P1, P2, Kd, Kbk, Kc) ==
  IF Critical(P1, P2, k) THEN ((((m ** "3600") // (((((CoefC(k) ** Kd) ** Kbk) ** Kc) ** P1) // "1000")) ** Sqrt((T ** Z) // MW)) // "1e6")
  ELSE ((((("17.9" ** m) ** "3600") // ((F2(k, P1, P2) ** Kd) ** Kc)) ** Sqrt((T ** Z) // (((MW ** (P1 // "1000")) ** (P1 -- P2)) // "1000"))) // "1e6")
AreaS(m, T, P1, Kd, Kbk, Kc, ed) == LET s == Superheat(T, P1, ed) IN IF s = "refused" THEN s ELSE (((("190.5" ** m) ** "3600") // ((((((P1 // "1000") ** Kd) ** Kbk) ** Kc) ** KN(P1)) ** s)) // "1e6")
Rho0 == R("999.0107539518483")
AreaL(m, rho, P1, P2, Kd, Kc, kw, kv) == (((((("11.78" ** m) // rho) ** "60000") ** Sqrt((rho // Rho0) // ((P1 -- P2) // "1000"))) // (((Kd ** kw) ** Kc) ** kv)) // "1e6")
\* viscosity correction from the area without it
VisL(m, rho, P1, P2, Kd, Kc, kw, mu, ed) ==
  LET A == AreaL(m, rho, P1, P2, Kd, Kc, kw, R("1"))  D == (Sqrt(("4" ** A) // "3.141592653589793")) IN Kvis(((m ** D) // (A ** mu)), ed)
Graph(x) == LET r == (IF (x \prec "1") THEN "1" ELSE x)  lo == (("87.9084" ** Log10(r)) ++ "12.7647")  hi == (("4.8239" ** Log10(r)) ++ "51.6217")
            IN (IF (r \prec "2.92") THEN lo ELSE (IF (r \prec "2.93") THEN lo ++ (((r -- "2.92") // "0.01") ** (hi -- lo)) ELSE hi))
Noise521(m, P1, P2, c, d) == ((Graph(P1 // P2) ++ ("10" ** Log10((("0.5" ** m) ** c) ** c))) -- ("20" ** Log10(d // "30")))
\* shipped: the mass flow is scaled by 360, where tonnes per hour need 3.6
Flare(m, f, a, b) == (a ++ (b ** Log10(m ** f)))
=============================================================================
