------------------------------ MODULE GasPipe ------------------------------
(* Gas pipeline flow equations: one relation between flow, upstream and       *)
(* downstream pressure, diameter and length, solved for any one of them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Eqs == {"Panhandle_A", "Panhandle_B", "Weymouth", "Spitzglass_high", "Spitzglass_low", "Oliphant", "Fritzsche", "Muller", "IGT", "isothermal_gas"}
Unknowns == {"Q", "D", "L", "P1", "P2"}
pi == "3.141592653589793"
Sq(x) == x ** x
dP2(a) == Sq(a.P1) -- Sq(a.P2)
Eff(n, a) == IF Has(a, "E") THEN a.E ELSE IF n \in {"Panhandle_A", "Panhandle_B", "Weymouth", "Oliphant"} THEN R("0.92") ELSE R("1")
Ts(a) == IF Has(a, "Ts") THEN a.Ts ELSE R("288.7")
Ps(a) == IF Has(a, "Ps") THEN a.Ps ELSE R("101325")
Zav(a) == IF Has(a, "Zavg") THEN a.Zavg ELSE R("1")
\* Q = c (Ts/Ps)^e (dP2 / (L SG^g Tavg Z))^m D^d
Form(c, e, g, m, d, n, a) == ((((R(c) ** Eff(n, a)) ** ((Ts(a) // Ps(a)) ^^ e)) ** ((dP2(a) // (((a.L ** (a.SG ^^ g)) ** a.Tavg) ** Zav(a))) ^^ m)) ** (a.D ^^ d))
\* Spitzglass: the diameter in inches enters 1 + 3.6/D + 0.03 D
Spitz(D) == ("1" ++ ("0.09144" // D)) ++ (("0.03" // "0.0254") ** D)
IsoChoke(a) == (a.fd ** a.L) // a.D
Flow(n, a) ==
  CASE n = "Panhandle_A" -> Form("45965" ** ((R("10") ^^ "0.4728") // "864"), "1.0788", "0.8539", "0.5394", "2.6182", n, a)
    [] n = "Panhandle_B" -> Form("4175" ** ((R("10") ^^ "0.12") // "36"), "1.02", "0.961", "0.51", "2.53", n, a)
    [] n = "Weymouth" -> Form("37435" ** ((R("10") ^^ "0.501") // "864"), "1", "1", "0.5", "2.667", n, a)
    [] n = "Fritzsche" -> Form("14135" ** ((R("10") ^^ "0.456") // "432"), "1", "0.8587", "0.538", "2.69", n, a)
    [] n = "Spitzglass_high" -> ((("125.1060" ** Eff(n, a)) ** (Ts(a) // Ps(a))) ** (a.D ^^ "2.5")) ** Sqrt(dP2(a) // ((((a.L ** a.SG) ** Zav(a)) ** a.Tavg) ** Spitz(a.D)))
    [] n = "Spitzglass_low" -> ((("125.1060" ** Eff(n, a)) ** (Ts(a) // Ps(a))) ** (a.D ^^ "2.5")) ** Sqrt((("2" ** (a.P1 -- a.P2)) ** (Ps(a) ++ "1210")) // ((((a.L ** a.SG) ** Zav(a)) ** a.Tavg) ** Spitz(a.D)))
    [] n = "Oliphant" -> (("84.587176139918568651410168968141078948974609375" ** (Ts(a) // Ps(a))) ** ((a.D ^^ "2.5") ++ ((a.D ^^ "3") // ("30" ** Sqrt("0.0254"))))) ** Sqrt(dP2(a) // ((a.L ** a.SG) ** a.Tavg))
    [] n = "Muller" -> ((((((("5642991" ** (R("196133") ^^ "0.85")) ** ((R("2") ^^ "0.6") ** (R("3") ^^ "0.275"))) ** (R("5") ^^ "0.175")) // "30645781250") ** Eff(n, a)) ** (Ts(a) // Ps(a)))
           ** ((dP2(a) // ((a.Tavg ** a.L) ** Zav(a))) ^^ "0.575")) ** ((a.D ^^ "2.725") // ((a.SG ^^ "0.425") ** (a.mu ^^ "0.15")))
    [] n = "IGT" -> ((((("1084707" ** (R("196133") ^^ ("8" // "9"))) ** ((R("2") ^^ ("1" // "9")) ** (R("6") ^^ ("1" // "3")))) // "4377968750") ** Eff(n, a)) ** (Ts(a) // Ps(a)))
           ** (((dP2(a) // ((a.Tavg ** a.L) ** Zav(a))) ^^ ("5" // "9")) ** ((a.D ^^ ("8" // "3")) // ((a.SG ^^ ("4" // "9")) ** (a.mu ^^ ("1" // "9")))))
    [] n = "isothermal_gas" -> Sqrt((((Sq("0.25" ** (pi ** Sq(a.D)))) ** a.rho) ** dP2(a)) // (a.P1 ** (IsoChoke(a) ++ ("2" ** Ln(a.P1 // a.P2)))))
\* Pressure ratio r = (P1/P2)^2 at which isothermal flow chokes:  r - ln r = 1 + f L/D.
Choked(a, slack) == LET r == Sq(a.P1 // a.P2) IN ((r -- Ln(r)) -- "1") \succ (IsoChoke(a) ** ("1" ++ slack))
============================================================================
