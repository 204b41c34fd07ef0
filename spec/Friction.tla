------------------------------ MODULE Friction ------------------------------
(* Darcy friction factor of flow in straight pipes: the Colebrook relation,   *)
(* its published approximations, their ranges, and the choice among them.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Laminar(Re) == R("64" // Re)
LaminarLimit == "2040"
sq2(x) == R("1" // (x ** x))
S(a) == a
Corr(n, Re, eD) ==
  CASE n = "laminar" -> Laminar(Re)
    [] n = "Blasius" -> R("0.3164" // (Re ^^ "0.25"))
    [] n = "Moody" -> (("4" ** "1.375e-3") ** ("1" ++ ((("2e4" ** eD) ++ ("1e6" // Re)) ^^ ("1" // "3"))))
    [] n = "Alshul_1952" -> R("0.11" ** ((("68" // Re) ++ eD) ^^ "0.25"))
    [] n = "Wood_1966" -> ((("0.094" ** (eD ^^ "0.225")) ++ ("0.53" ** eD)) ++ (("88" ** (eD ^^ "0.4")) ** (Re ^^ ("-1.62" ** (eD ^^ "0.134")))))
    [] n = "Churchill_1973" -> (("-2" ** Log10((eD // "3.7") ++ (("7" // Re) ^^ "0.9"))) ^^ "-2")
    [] n = "Eck_1973" -> (("-2" ** Log10((eD // "3.715") ++ ("15" // Re))) ^^ "-2")
    [] n = "Jain_1976" -> R("4" ** (("2.28" -- ("4" ** Log10(eD ++ (("29.843" // Re) ^^ "0.9")))) ^^ "-2"))
    [] n = "Swamee_Jain_1976" -> R("4" ** (("-4" ** Log10((("6.97" // Re) ^^ "0.9") ++ (eD // "3.7"))) ^^ "-2"))
    [] n = "Churchill_1977" -> R("8" ** (((("8" // Re) ^^ "12") ++ (((("2.457" ** Ln((("7" // Re) ^^ "0.9") ++ ("0.27" ** eD))) ^^ "16") ++ (("37530" // Re) ^^ "16")) ^^ "-1.5")) ^^ ("1" // "12")))
    [] n = "Chen_1979" -> R("4" ** (("-4" ** Log10((eD // "3.7065") -- (("5.0452" // Re) ** Log10(((eD ^^ "1.1098") // "2.8257") ++ (("7.149" // Re) ^^ "0.8981"))))) ^^ "-2"))
    [] n = "Round_1980" -> R("4" ** (("-3.6" ** Log10(Re // ((("0.135" ** Re) ** eD) ++ "6.5"))) ^^ "-2"))
    [] n = "Shacham_1980" -> R("4" ** (("-4" ** Log10((eD // "3.7") -- (("5.02" // Re) ** Log10((eD // "3.7") ++ ("14.5" // Re))))) ^^ "-2"))
    [] n = "Barr_1981" -> (("-2" ** Log10((eD // "3.7") ++ (("4.518" ** Log10(Re // "7")) // (Re ** ("1" ++ (((Re ^^ "0.52") // "29") ** (eD ^^ "0.7"))))))) ^^ "-2")
    [] n = "Zigrang_Sylvester_1" -> R("4" ** (("-4" ** Log10((eD // "3.7") -- (("5.02" // Re) ** Log10((eD // "3.7") ++ ("13" // Re))))) ^^ "-2"))
    [] n = "Zigrang_Sylvester_2" -> R("4" ** (("-4" ** Log10((eD // "3.7") -- (("5.02" // Re) ** Log10((eD // "3.7") -- (("5.02" // Re) ** Log10((eD // "3.7") ++ ("13" // Re))))))) ^^ "-2"))
    [] n = "Haaland" -> (("-1.8" ** Log10(((eD // "3.7") ^^ "1.11") ++ ("6.9" // Re))) ^^ "-2")
    [] n \in {"Serghides_1", "Serghides_2"} ->
         LET A == R("-2" ** Log10((eD // "3.7") ++ ("12" // Re)))
             B == R("-2" ** Log10((eD // "3.7") ++ (("2.51" ** A) // Re)))
             C == R("-2" ** Log10((eD // "3.7") ++ (("2.51" ** B) // Re)))
         IN IF n = "Serghides_1" THEN ((A -- (((B -- A) ^^ "2") // ((C -- ("2" ** B)) ++ A))) ^^ "-2") ELSE (("4.781" -- (((A -- "4.781") ^^ "2") // ((B -- ("2" ** A)) ++ "4.781"))) ^^ "-2")
    [] n = "Tsal_1989" -> LET A == R("0.11" ** ((("68" // Re) ++ eD) ^^ "0.25")) IN (IF (A \succeq "0.018") THEN A ELSE "0.0028" ++ ("0.85" ** A))
    [] n = "Manadilli_1997" -> (("-2" ** Log10(((eD // "3.7") ++ ("95" // (Re ^^ "0.983"))) -- ("96.82" // Re))) ^^ "-2")
    [] n = "Romeo_2002" -> (("-2" ** Log10((eD // "3.7065") -- (("5.0272" // Re) ** Log10((eD // "3.827") -- (("4.567" // Re) ** Log10(((eD // "7.7918") ^^ "0.9924") ++ (("5.3326" // ("208.815" ++ Re)) ^^ "0.9345"))))))) ^^ "-2")
    [] n = "Sonnad_Goudar_2006" -> LET s == ((("0.124" ** eD) ** Re) ++ Ln("0.4587" ** Re)) IN (("0.8686" ** Ln(("0.4587" ** Re) // (s ^^ (s // (s ++ "1"))))) ^^ "-2")
    [] n = "Rao_Kumar_2007" -> LET b == R("1" -- ("0.55" ** Exp("-0.33" ** (Ln(Re // "6.5") ^^ "2")))) IN (("2" ** Log10(("1" // ("2" ** eD)) // ((("0.444" ++ ("0.135" ** Re)) // Re) ** b))) ^^ "-2")
    [] n = "Buzzelli_2008" -> LET B1 == ((("0.774" ** Ln(Re)) -- "1.41") // ("1" ++ ("1.32" ** Sqrt(eD))))
                                  B2 == (((eD // "3.7") ** Re) ++ ("2.51" ** B1))
                              IN ((B1 -- ((B1 ++ ("2" ** Log10(B2 // Re))) // ("1" ++ ("2.18" // B2)))) ^^ "-2")
    [] n = "Avci_Karagoz_2009" -> R("6.4" // ((Ln(Re) -- Ln("1" ++ ((("0.01" ** Re) ** eD) ** ("1" ++ ("10" ** Sqrt(eD)))))) ^^ "2.4"))
    [] n = "Papaevangelo_2010" -> (("0.2479" -- ("0.0000947" ** (("7" -- Ln(Re)) ^^ "4"))) // (Log10((eD // "3.615") ++ ("7.366" // (Re ^^ "0.9142"))) ^^ "2"))
    [] n \in {"Brkic_2011_1", "Brkic_2011_2"} ->
         LET beta == (Ln(Re // ("1.816" ** Ln(("1.1" ** Re) // Ln("1" ++ ("1.1" ** Re))))))
         IN IF n = "Brkic_2011_1" THEN (("-2" ** Log10(("10" ^^ ("-0.4343" ** beta)) ++ (eD // "3.71"))) ^^ "-2") ELSE (("-2" ** Log10((("2.18" ** beta) // Re) ++ (eD // "3.71"))) ^^ "-2")
    [] n = "Fang_2011" -> R("1.613" ** (Ln((("0.234" ** (eD ^^ "1.1007")) -- ("60.525" // (Re ^^ "1.1105"))) ++ ("56.291" // (Re ^^ "1.0712"))) ^^ "-2"))
    [] n = "von_Karman" -> (("-2" ** Log10(eD // "3.7")) ^^ "-2")
\* Colebrook's relation, to relative tolerance tol on f
Colebrook(f, Re, eD, tol) == LET x == R("1" // Sqrt(f))  u == ((eD // "3.7") ++ (("2.51" ** x) // Re))
                             IN f \succ "0" /\ Abs(((x ++ ("2" ** Log10(u))) // (x ** ("1" ++ (((("2.51" // Re) // u) ** "2") // Ln("10")))))) \preceq R("0.5" ** tol)

NotGiven == {"Blasius", "von_Karman"}
Methods == {"Moody", "Alshul_1952", "Wood_1966", "Churchill_1973", "Eck_1973", "Jain_1976", "Swamee_Jain_1976", "Churchill_1977", "Chen_1979", "Round_1980", "Shacham_1980",
  "Barr_1981", "Zigrang_Sylvester_1", "Zigrang_Sylvester_2", "Haaland", "Serghides_1", "Serghides_2", "Tsal_1989", "Manadilli_1997", "Romeo_2002", "Sonnad_Goudar_2006",
  "Rao_Kumar_2007", "Buzzelli_2008", "Avci_Karagoz_2009", "Papaevangelo_2010", "Brkic_2011_1", "Brkic_2011_2", "Fang_2011", "Clamond", "Colebrook"}
\* published range of validity: Re from, Re to, roughness from, roughness to; empty: not limited
Range(n) ==
  CASE n = "Moody" -> <<"4000", "1e8", "0", "0.01">>
    [] n = "Wood_1966" -> <<"4000", "5e7", "1e-5", "0.04">>
    [] n = "Jain_1976" -> <<"5000", "1e7", "4e-5", "0.05">>
    [] n = "Swamee_Jain_1976" -> <<"5000", "1e8", "1e-6", "0.05">>
    [] n = "Chen_1979" -> <<"4000", "4e8", "1e-7", "0.05">>
    [] n = "Round_1980" -> <<"4000", "4e8", "0", "0.05">>
    [] n = "Shacham_1980" -> <<"4000", "4e8", "", "">>
    [] n \in {"Zigrang_Sylvester_1", "Zigrang_Sylvester_2"} -> <<"4000", "1e8", "4e-5", "0.05">>
    [] n \in {"Haaland", "Sonnad_Goudar_2006"} -> <<"4000", "1e8", "1e-6", "0.05">>
    [] n = "Tsal_1989" -> <<"4000", "1e8", "0", "0.05">>
    [] n = "Manadilli_1997" -> <<"5245", "1e8", "0", "0.05">>
    [] n = "Romeo_2002" -> <<"3000", "1.5e8", "0", "0.05">>
    [] n = "Papaevangelo_2010" -> <<"1e4", "1e7", "1e-5", "1e-3">>
    [] n = "Fang_2011" -> <<"3000", "1e8", "0", "0.05">>
    [] n \in {"Clamond", "Colebrook"} -> <<"0", "", "0", "">>
    [] OTHER -> <<"", "", "", "">>
InRange(n, Re, eD) == LET r == Range(n) IN (r[1] = "" \/ Re \succeq R(r[1])) /\ (r[2] = "" \/ Re \preceq R(r[2])) /\ (r[3] = "" \/ eD \succeq R(r[3])) /\ (r[4] = "" \/ eD \preceq R(r[4]))
Listed(Re, eD, check) == IF ~check THEN Methods \union {"laminar"} ELSE IF Re \prec LaminarLimit THEN {"laminar"} ELSE {n \in Methods : InRange(n, Re, eD)}

\* Inside their range the explicit approximations are within 17% of the root of Colebrook's relation.
Approximations == Methods \ {"Clamond", "Colebrook", "Moody", "Alshul_1952", "Rao_Kumar_2007", "Tsal_1989", "Eck_1973", "Wood_1966"}
ApproxRange(n, Re, eD) == Re \succeq "5000" /\ eD \succeq "1e-6" /\ eD \preceq "0.05" /\ InRange(n, Re, eD)
NearColebrook(f, Re, eD) == LET g(x) == LET y == R("1" // Sqrt(x)) IN (y ++ ("2" ** Log10((eD // "3.7") ++ (("2.51" ** y) // Re)))) IN f \succ "0" /\ g((f ** "0.83")) \succ "0" /\ g((f ** "1.17")) \prec "0"

\* the friction factor reported: OK(f)
FOk(method, Re, eD, darcy, f) ==
  LET fd == IF darcy THEN f ELSE R("4" ** f)
  IN IF Re \prec LaminarLimit \/ method = "laminar" THEN Close(fd, Laminar(Re), "1e-12")
     ELSE IF method \in {"Clamond", "Colebrook", ""} THEN Colebrook(fd, Re, eD, R("1e-10"))
     ELSE Close(fd, Corr(method, Re, eD), "1e-9")

\* pressure drop of a single phase
dPFriction(f, m, rho, D, L) == LET V == (m // ((("3.141592653589793" // "4") ** (D ** D)) ** rho)) IN (((f ** L) // D) ** (((rho ** V) ** V) // "2"))
ReOf(m, mu, D) == (("4" ** m) // (("3.141592653589793" ** D) ** mu))
dPAcc(m, D, ro, ri, Di) == LET vo == (m // ((((ro ** "3.141592653589793") // "4") ** D) ** D))  vi == (m // ((((ri ** "3.141592653589793") // "4") ** Di) ** Di)) IN ((((ro ++ ri) // "2") ** ((vo ** vo) -- (vi ** vi))) // "2")
dPdzAcc(a) == LET A == ((("3.141592653589793" // "4") ** a.D) ** a.D)  G == (a.m // A) IN ((Neg(G) ** G) ** ((a.dP_dL ** a.dv_dP) -- (a.dA_dL // (a.rho ** A))))
dPGrav(a) == (((a.L ** a.g) ** a.rho) ** Sin((a.angle // "180") ** "3.141592653589793"))

\* Farshad roughness: A (D/inch)^(B+1) inch
Farshad(A, B, D) == ((A ** ((D // "0.0254") ^^ (B ++ "1"))) ** "0.0254")
\* value chosen from (minimum, maximum, average) for an optimistic, pessimistic or neutral client; "!" prefixed when absent
Choose3(t, opt) == LET pick(s) == IF IsNum(s[1]) THEN s[1] ELSE IF IsNum(s[2]) THEN s[2] ELSE s[3]
                   IN CASE opt = "none" -> pick(<<t[3], t[2], t[1]>>) [] opt = "yes" -> pick(<<t[1], t[3], t[2]>>) [] OTHER -> pick(<<t[2], t[3], t[1]>>)
=============================================================================
