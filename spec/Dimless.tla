------------------------------ MODULE Dimless ------------------------------
(* The dimensionless groups: definition, accepted input forms, dimensions.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64

g0 == "9.80665"
Rgas == "8.31446261815324"

\* Dimension exponents <<mass, length, time, temperature>> of each argument.
Dim == [ V |-> <<0,1,-1,0>>, D |-> <<0,1,0,0>>, L |-> <<0,1,0,0>>, rho |-> <<1,-3,0,0>>, mu |-> <<1,-1,-1,0>>, nu |-> <<0,2,-1,0>>,
         Cp |-> <<0,2,-2,-1>>, k |-> <<1,1,-3,-1>>, alpha |-> <<0,2,-1,0>>, t |-> <<0,0,1,0>>, x |-> <<0,1,0,0>>, sigma |-> <<1,0,-2,0>>,
         c |-> <<0,1,-1,0>>, rhol |-> <<1,-3,0,0>>, rhog |-> <<1,-3,0,0>>, g |-> <<0,1,-2,0>>, mul |-> <<1,-1,-1,0>>, path |-> <<0,1,0,0>>,
         beta |-> <<0,0,0,-1>>, T1 |-> <<0,0,0,1>>, T2 |-> <<0,0,0,1>>, Pr |-> <<0,0,0,0>>, Gr |-> <<0,0,0,0>>, rho1 |-> <<1,-3,0,0>>, rho2 |-> <<1,-3,0,0>>,
         f |-> <<0,0,-1,0>>, h |-> <<1,0,-3,-1>>, Kc |-> <<0,1,-1,0>>, Diff |-> <<0,2,-1,0>>, dP |-> <<1,-1,-2,0>>, P |-> <<1,-1,-2,0>>, Psat |-> <<1,-1,-2,0>>,
         dT |-> <<0,0,0,1>>, Hvap |-> <<0,2,-2,0>>, Te |-> <<0,0,0,1>>, Pow |-> <<1,2,-3,0>>, N |-> <<0,0,-1,0>>, F |-> <<1,1,-2,0>>, A |-> <<0,2,0,0>>,
         Dp |-> <<0,1,0,0>>, rhop |-> <<1,-3,0,0>>, rhof |-> <<1,-3,0,0>>, Re |-> <<0,0,0,0>>, fd |-> <<0,0,0,0>>, Perm |-> <<0,2,0,0>>, G |-> <<1,-2,-1,0>>, q |-> <<1,0,-3,0>>,
         Di |-> <<0,1,0,0>>, roughness |-> <<0,1,0,0>> ]

\* Argument names whose dimension depends on the group they occur in.
DimOf(name, a) ==
    CASE name \in {"Peclet_mass", "Fourier_mass", "Schmidt", "Lewis", "Sherwood"} /\ a = "D" -> Dim.Diff
      [] name = "Sherwood" /\ a = "K" -> Dim.Kc
      [] name = "Bejan_p" /\ a = "K" -> Dim.Perm
      [] name = "Power_number" /\ a = "P" -> Dim.Pow
      [] OTHER -> Dim[a]

\* The accepted argument sets of each group.
Forms == [ Reynolds |-> {{"V","D","rho","mu"}, {"V","D","nu"}, {"V","D","rho","mu","nu"}},
  Peclet_heat |-> {{"V","L","rho","Cp","k"}, {"V","L","alpha"}, {"V","L","rho","Cp","k","alpha"}},
  Peclet_mass |-> {{"V","L","D"}},
  Fourier_heat |-> {{"t","L","rho","Cp","k"}, {"t","L","alpha"}, {"t","L","rho","Cp","k","alpha"}},
  Fourier_mass |-> {{"t","L","D"}},
  Graetz_heat |-> {{"V","D","x","rho","Cp","k"}, {"V","D","x","alpha"}, {"V","D","x","rho","Cp","k","alpha"}},
  Schmidt |-> {{"D","mu","rho"}, {"D","nu"}, {"D","mu","rho","nu"}},
  Lewis |-> {{"D","alpha"}, {"D","Cp","k","rho"}, {"D","Cp","k","rho","alpha"}},
  Weber |-> {{"V","L","rho","sigma"}},
  Mach |-> {{"V","c"}},
  Confinement |-> {{"D","rhol","rhog","sigma"}, {"D","rhol","rhog","sigma","g"}},
  Morton |-> {{"rhol","rhog","mul","sigma"}, {"rhol","rhog","mul","sigma","g"}},
  Knudsen |-> {{"path","L"}},
  Prandtl |-> {{"Cp","k","mu"}, {"nu","rho","Cp","k"}, {"nu","alpha"}, {"Cp","k","mu","nu","alpha"}},
  Grashof |-> {{"L","beta","T1","rho","mu"}, {"L","beta","T1","T2","nu"}, {"L","beta","T1","T2","nu","g"}, {"L","beta","T1","T2","rho","mu","g"}},
  Bond |-> {{"rhol","rhog","sigma","L"}},
  Rayleigh |-> {{"Pr","Gr"}},
  Froude |-> {{"V","L"}, {"V","L","g"}, {"V","L","squared"}, {"V","L","g","squared"}},
  Froude_densimetric |-> {{"V","L","rho1","rho2"}, {"V","L","rho1","rho2","heavy"}, {"V","L","rho1","rho2","heavy","g"}},
  Strouhal |-> {{"f","L","V"}},
  Nusselt |-> {{"h","L","k"}},
  Sherwood |-> {{"K","L","D"}},
  Biot |-> {{"h","L","k"}},
  Stanton |-> {{"h","V","rho","Cp"}},
  Euler |-> {{"dP","rho","V"}},
  Cavitation |-> {{"P","Psat","rho","V"}},
  Eckert |-> {{"V","Cp","dT"}},
  Jakob |-> {{"Cp","Hvap","Te"}},
  Power_number |-> {{"P","L","N","rho"}},
  Drag |-> {{"F","A","V","rho"}},
  Stokes_number |-> {{"V","Dp","D","rhop","mu"}},
  Capillary |-> {{"V","mu","sigma"}},
  Archimedes |-> {{"L","rhof","rhop","mu"}, {"L","rhof","rhop","mu","g"}},
  Ohnesorge |-> {{"L","rho","mu","sigma"}},
  Suratman |-> {{"L","rho","mu","sigma"}},
  Hagen |-> {{"Re","fd"}},
  Bejan_L |-> {{"dP","L","mu","alpha"}},
  Bejan_p |-> {{"dP","K","mu","alpha"}},
  Boiling |-> {{"G","q","Hvap"}},
  Dean |-> {{"Re","Di","D"}},
  relative_roughness |-> {{"D","roughness"}} ]

\* Argument sets that do not determine the group: refused.
Refused == { <<"Reynolds", {"V","D"}>>, <<"Reynolds", {"V","D","rho"}>>, <<"Reynolds", {"V","D","mu"}>>,
  <<"Peclet_heat", {"V","L"}>>, <<"Peclet_heat", {"V","L","rho","Cp"}>>, <<"Peclet_heat", {"V","L","rho","k"}>>, <<"Peclet_heat", {"V","L","Cp","k"}>>,
  <<"Fourier_heat", {"t","L"}>>, <<"Fourier_heat", {"t","L","rho","Cp"}>>, <<"Fourier_heat", {"t","L","Cp","k"}>>,
  <<"Graetz_heat", {"V","D","x"}>>, <<"Graetz_heat", {"V","D","x","rho","k"}>>,
  <<"Schmidt", {"D"}>>, <<"Schmidt", {"D","mu"}>>, <<"Schmidt", {"D","rho"}>>, <<"Lewis", {"D"}>>, <<"Lewis", {"D","Cp","k"}>>,
  <<"Prandtl", {"Cp","k"}>>, <<"Prandtl", {"nu"}>>, <<"Prandtl", {"alpha"}>>, <<"Prandtl", {"Cp","mu"}>>, <<"Prandtl", {"nu","rho","Cp"}>>,
  <<"Grashof", {"L","beta","T1"}>>, <<"Grashof", {"L","beta","T1","rho"}>>, <<"Grashof", {"L","beta","T1","mu"}>> }

Sq(x) == x ** x
Cu(x) == x ** (x ** x)
AlphaOf(a) == IF Has(a, "rho") /\ Has(a, "Cp") /\ Has(a, "k") THEN a.k // (a.rho ** a.Cp) ELSE Get(a, "alpha")
NuOf(a) == IF Has(a, "rho") /\ Has(a, "mu") THEN a.mu // a.rho ELSE Get(a, "nu")
GOf(a) == IF Has(a, "g") THEN a.g ELSE g0

Def(n, a) ==
  CASE n = "Reynolds" -> (a.V ** a.D) // NuOf(a)
    [] n = "Peclet_heat" -> (a.V ** a.L) // AlphaOf(a)
    [] n = "Peclet_mass" -> (a.V ** a.L) // a.D
    [] n = "Fourier_heat" -> (a.t ** AlphaOf(a)) // Sq(a.L)
    [] n = "Fourier_mass" -> (a.t ** a.D) // Sq(a.L)
    [] n = "Graetz_heat" -> (a.V ** Sq(a.D)) // (a.x ** AlphaOf(a))
    [] n = "Schmidt" -> NuOf(a) // a.D
    [] n = "Lewis" -> AlphaOf(a) // a.D
    [] n = "Weber" -> (Sq(a.V) ** (a.L ** a.rho)) // a.sigma
    [] n = "Mach" -> a.V // a.c
    [] n = "Confinement" -> Sqrt(a.sigma // (GOf(a) ** (a.rhol -- a.rhog))) // a.D
    [] n = "Morton" -> (GOf(a) ** (Sq(Sq(a.mul)) ** (a.rhol -- a.rhog))) // (Sq(a.rhol) ** Cu(a.sigma))
    [] n = "Knudsen" -> a.path // a.L
    [] n = "Prandtl" -> IF Has(a, "Cp") /\ Has(a, "k") /\ Has(a, "mu") THEN (a.Cp ** a.mu) // a.k
                        ELSE IF Has(a, "rho") THEN (a.nu ** (a.rho ** a.Cp)) // a.k ELSE a.nu // a.alpha
    [] n = "Grashof" -> (GOf(a) ** (a.beta ** (Abs((IF Has(a, "T2") THEN a.T2 ELSE 0) -- a.T1) ** Cu(a.L)))) // Sq(NuOf(a))
    [] n = "Bond" -> (GOf(a) ** ((a.rhol -- a.rhog) ** Sq(a.L))) // a.sigma
    [] n = "Rayleigh" -> a.Pr ** a.Gr
    [] n = "Froude" -> LET x == a.V // Sqrt(a.L ** GOf(a)) IN IF IsTrue(Get(a, "squared")) THEN Sq(x) ELSE x
    [] n = "Froude_densimetric" -> (a.V // Sqrt(GOf(a) ** a.L)) **
           Sqrt((IF IsFalse(Get(a, "heavy")) THEN a.rho2 ELSE a.rho1) // (a.rho1 -- a.rho2))
    [] n = "Strouhal" -> (a.f ** a.L) // a.V
    [] n \in {"Nusselt", "Biot"} -> (a.h ** a.L) // a.k
    [] n = "Sherwood" -> (a.K ** a.L) // a.D
    [] n = "Stanton" -> a.h // (a.V ** (a.rho ** a.Cp))
    [] n = "Euler" -> a.dP // (a.rho ** Sq(a.V))
    [] n = "Cavitation" -> (a.P -- a.Psat) // ("0.5" ** (a.rho ** Sq(a.V)))
    [] n = "Eckert" -> Sq(a.V) // (a.Cp ** a.dT)
    [] n = "Jakob" -> (a.Cp ** a.Te) // a.Hvap
    [] n = "Power_number" -> a.P // (a.rho ** (Cu(a.N) ** (a.L ^^ "5")))
    [] n = "Drag" -> a.F // ("0.5" ** (a.A ** (a.rho ** Sq(a.V))))
    [] n = "Stokes_number" -> (a.rhop ** (a.V ** Sq(a.Dp))) // ("18" ** (a.mu ** a.D))
    [] n = "Capillary" -> (a.V ** a.mu) // a.sigma
    [] n = "Archimedes" -> (Cu(a.L) ** (a.rhof ** ((a.rhop -- a.rhof) ** GOf(a)))) // Sq(a.mu)
    [] n = "Ohnesorge" -> a.mu // Sqrt(a.L ** (a.rho ** a.sigma))
    [] n = "Suratman" -> (a.rho ** (a.sigma ** a.L)) // Sq(a.mu)
    [] n = "Hagen" -> "0.5" ** (a.fd ** Sq(a.Re))
    [] n = "Bejan_L" -> (a.dP ** Sq(a.L)) // (a.alpha ** a.mu)
    [] n = "Bejan_p" -> (a.dP ** a.K) // (a.alpha ** a.mu)
    [] n = "Boiling" -> a.q // (a.G ** a.Hvap)
    [] n = "Dean" -> Sqrt(a.Di // a.D) ** a.Re
    [] n = "relative_roughness" -> a.roughness // a.D
    [] OTHER -> "!"

\* Related quantities with dimensions.
DefDim(n, a) ==
  CASE n = "thermal_diffusivity" -> a.k // (a.rho ** a.Cp)
    [] n = "c_ideal_gas" -> Sqrt(a.k ** (a.T ** ((Rgas ** "1000") // a.MW)))
    [] n = "gravity" -> LET p == (a.latitude ** "3.141592653589793") // "180"
                        IN ("9.780356" ** (("1" ++ ("0.0052885" ** Sq(Sin(p)))) -- ("0.0000059" ** Sq(Sin("2" ** p))))) -- ("3.086e-6" ** a.H)
    [] n = "dP_from_K" -> "0.5" ** (a.K ** (a.rho ** Sq(a.V)))
    [] n = "head_from_K" -> ("0.5" ** (a.K ** Sq(a.V))) // GOf(a)
    [] OTHER -> "!"
DimNames == {"thermal_diffusivity", "c_ideal_gas", "gravity", "dP_from_K", "head_from_K"}

NumDim(f) == f \ {"squared", "heavy"}
\* A group whose g is not among the given arguments uses standard gravity in SI, so it is
\* invariant only under changes of units that keep g.
UsesG(n, f) == n \in {"Confinement", "Morton", "Grashof", "Bond", "Froude", "Froude_densimetric", "Archimedes"} /\ "g" \notin f
=============================================================================
