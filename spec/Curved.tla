------------------------------- MODULE Curved -------------------------------
(* Friction factor of flow in coiled tubes and between corrugated plates.     *)
EXTENDS Friction
De(Re, Di, Dc) == (Re ** Sqrt(Di // Dc))
LaminarCurved == {"White", "Mori Nakayama laminar", "Schmidt laminar"}
TurbulentCurved == {"Schmidt turbulent", "Mori Nakayama turbulent", "Prasad", "Czop", "Guo", "Ju", "Mandal Nigam", "Srinivasan turbulent"}
RoughCurved == {"Schmidt turbulent", "Prasad", "Ju", "Mandal Nigam"}
ReCritMethods == {"Seth Stahel", "Ito", "Kubair Kuloor", "Kutateladze Borishanskii", "Schmidt", "Srinivasan"}
ReCrit(n, Di, Dc) ==
  LET r == (Di // Dc) IN
  CASE n = "Seth Stahel" -> R("1900" ** ("1" ++ ("8" ** Sqrt(r))))
    [] n = "Ito" -> R("20000" ** (r ^^ "0.32"))
    [] n = "Kubair Kuloor" -> R("12730" ** (r ^^ "0.2"))
    [] n = "Kutateladze Borishanskii" -> R("2300" ++ ("10500" ** (r ^^ "0.3")))
    [] n = "Schmidt" -> R("2300" ** ("1" ++ ("8.6" ** (r ^^ "0.45"))))
    [] n = "Srinivasan" -> R("2100" ** ("1" ++ ("12" ** Sqrt(r))))
\* what the coil does to the friction factor of the straight tube
Factor(n, Re, Di, Dc) ==
  LET r == (Di // Dc)  d == De(Re, Di, Dc) IN
  CASE n = "White" -> (IF (d \prec "11.6") THEN "1" ELSE "1" // ("1" -- (("1" -- (("11.6" // d) ^^ "0.45")) ^^ ("1" // "0.45"))))
    [] n = "Mori Nakayama laminar" -> (IF (d \prec "42.328036") THEN "1.405296" ELSE ("0.108" ** Sqrt(d)) // ("1" -- ("3.253" // Sqrt(d))))
    [] n = "Schmidt laminar" -> R("1" ++ (("0.14" ** (r ^^ "0.97")) ** (Re ^^ ("1" -- ("0.644" ** (r ^^ "0.312"))))))
    [] n = "Schmidt turbulent" -> (IF (Re \prec "22000") THEN "1" ++ (("2.88e4" // Re) ** (r ^^ "0.62")) ELSE "1" ++ ((("0.0823" ** ("1" ++ r)) ** (r ^^ "0.53")) ** (Re ^^ "0.25")))
    [] n = "Prasad" -> R("1" ++ ("0.18" ** (((Re ** r) ** r) ^^ "0.25")))
    [] n = "Ju" -> R("1" ++ (("0.11" ** (Re ^^ "0.23")) ** (r ^^ "0.14")))
    [] n = "Mandal Nigam" -> R("1" ++ ("0.03" ** (d ^^ "0.27")))
Whole(n, Re, Di, Dc) ==
  LET r == (Di // Dc) IN
  CASE n = "Mori Nakayama turbulent" -> LET t == (((Re ** r) ** r) ^^ "-0.2") IN ((("0.3" ** Sqrt(r)) ** t) ** ("1" ++ ("0.112" ** t)))
    [] n = "Czop" -> R("0.096" ** (De(Re, Di, Dc) ^^ "-0.1517"))
    [] n = "Guo" -> (("0.638" ** (Re ^^ "-0.15")) ** (r ^^ "0.51"))
    [] n = "Srinivasan turbulent" -> R("0.336" ** (De(Re, Di, Dc) ^^ "-0.2"))
CurvedOk(n, Re, Di, Dc, eps, f) ==
  CASE n \in LaminarCurved -> Close(f, (Laminar(Re) ** Factor(n, Re, Di, Dc)), "1e-9")
    [] n \in RoughCurved -> FOk("", Re, (eps // Di), TRUE, (f // Factor(n, Re, Di, Dc)))
    [] OTHER -> Close(f, Whole(n, Re, Di, Dc), "1e-9")
\* the method a client gets: explicit, or chosen by comparing Re with the critical one
Chosen(Re, Di, Dc, m, crit, lam, turb) == IF m # "" THEN m ELSE IF Re \prec ReCrit(crit, Di, Dc) THEN lam ELSE turb
ListedCurved(Re, Di, Dc, check) == IF ~check THEN LaminarCurved \union TurbulentCurved ELSE IF Re \prec ReCrit("Schmidt", Di, Dc) THEN LaminarCurved ELSE TurbulentCurved

\* chevron plates
Rad(d) == ((d ** "3.141592653589793") // "180")
Martin1999(Re, b) ==
  LET p == Rad(b)
      f0 == (IF (Re \prec "2000") THEN "16" // Re ELSE (("1.56" ** Ln(Re)) -- "3") ^^ "-2")
      f1 == (IF (Re \prec "2000") THEN ("149" // Re) ++ "0.9625" ELSE "9.75" // (Re ^^ "0.289"))
  IN R("4" ** (((Cos(p) // Sqrt((("0.045" ** Tan(p)) ++ ("0.09" ** Sin(p))) ++ (f0 // Cos(p)))) ++ (("1" -- Cos(p)) // Sqrt("3.8" ** f1))) ^^ "-2"))
MartinVDI(Re, b) ==
  LET p == Rad(b)
      f0 == (IF (Re \prec "2000") THEN "64" // Re ELSE (("1.8" ** Log10(Re)) -- "1.5") ^^ "-2")
      f1 == (IF (Re \prec "2000") THEN ("597" // Re) ++ "3.85" ELSE "39" // (Re ^^ "0.289"))
  IN (((Cos(p) // Sqrt((("0.18" ** Tan(p)) ++ ("0.36" ** Sin(p))) ++ (f0 // Cos(p)))) ++ (("1" -- Cos(p)) // Sqrt("3.8" ** f1))) ^^ "-2")
\* Kumar: rows by chevron angle <=; columns by Re <=: limit, C2, p
KumarAngles == <<"30", "45", "50", "60", "65">>
KumarRow(i) == CASE i = 1 -> <<<<"10", "50", "1">>, <<"100", "19.40", "0.589">>, <<"", "2.990", "0.183">>>>
                 [] i = 2 -> <<<<"15", "47", "1">>, <<"300", "18.29", "0.652">>, <<"", "1.441", "0.206">>>>
                 [] i = 3 -> <<<<"20", "34", "1">>, <<"300", "11.25", "0.631">>, <<"", "0.772", "0.161">>>>
                 [] i = 4 -> <<<<"40", "24", "1">>, <<"400", "3.24", "0.457">>, <<"", "0.760", "0.215">>>>
                 [] i = 5 -> <<<<"50", "24", "1">>, <<"500", "2.80", "0.451">>, <<"", "0.639", "0.213">>>>
KumarIndex(b) == IF \E i \in 1 .. 5 : b \preceq R(KumarAngles[i]) THEN CHOOSE i \in 1 .. 5 : b \preceq R(KumarAngles[i]) /\ \A j \in 1 .. i - 1 : ~(b \preceq R(KumarAngles[j])) ELSE 5
Kumar(Re, b) == LET r == KumarRow(KumarIndex(b))
                    c == IF Re \preceq R(r[1][1]) THEN r[1] ELSE IF Re \preceq R(r[2][1]) THEN r[2] ELSE r[3]
                IN (("4" ** R(c[2])) ** (Re ^^ Neg(R(c[3]))))
MuleyManglik(Re, b, phi) ==
  ((("4" ** (("2.917" -- ("0.1277" ** b)) ++ ("2.016e-3" ** (b ** b)))) ** ((("5.474" -- ("19.02" ** phi)) ++ ("18.93" ** (phi ** phi))) -- ("5.341" ** (phi ^^ "3")))) ** (Re ^^ Neg("0.2" ++ ("0.0577" ** Sin((("3.141592653589793" ** b) // "45") ++ "2.1")))))
=============================================================================
