---------------------------- MODULE VoidageModel ----------------------------
(* Quality grows from liquid to gas under every law; the dispatchers are asked *)
(* with every subset of the optional properties, repeatedly.                   *)
EXTENDS Voidage, TraceIO
CONSTANT Tier
VARIABLES kind, law, xi, given
vars == <<kind, law, xi, given>>
Laws == {Order[i] : i \in 1 .. Len(Order)}
Opts == {"D", "m", "mul", "mug", "sigma", "P", "Pc"}
Qual == <<"1e-4", "0.01", "0.1", "0.3", "0.5", "0.7", "0.9", "0.99", "0.9999">>
Init == \/ kind = "law" /\ law \in Laws /\ xi = 1 /\ given = {}
        \/ kind = "pick" /\ law \in Laws \union {""} /\ xi = 1 /\ given = {}
        \/ kind = "mu" /\ law \in {MuOrder[i] : i \in 1 .. 6} \union {""} /\ xi = 1 /\ given \in SUBSET {"rhol", "rhog"}
        \/ kind = "muhist" /\ law = "" /\ xi = 1 /\ given \in SUBSET {"rhol", "rhog"}
        \/ kind = "join" /\ law \in {"Kawahara", "Tandon Varma Gupta", "Domanski Didion", "Graham", "Kopte_Newell_Chato"} /\ xi = 1 /\ given = {}
        \/ kind \in {"unknown", "density", "xtt", "ends"} /\ law = "" /\ xi = 1 /\ given = {}
Boil == kind = "law" /\ xi < Len(Qual) /\ xi' = xi + 1 /\ UNCHANGED <<kind, law, given>>
Give == kind = "pick" /\ \E p \in Opts \ given : given' = given \union {p} /\ UNCHANGED <<kind, law, xi>>
Next == Boil \/ Give
Spec == Init /\ [][Next]_vars
A0(x) == [x |-> R(x), rhol |-> R("800"), rhog |-> R("2.5"), mul |-> R("1e-3"), mug |-> R("1e-5"), m |-> R("1"), D |-> R("0.1"), sigma |-> R("0.02"), P |-> R("1e6"), Pc |-> R("4e6")]
\* slip never makes the gas slower than the mixture: no law but the empirical curve fits exceeds homogeneous flow
Free == {"Turner Wallis", "Harms", "Tandon Varma Gupta", "Graham", "Kopte_Newell_Chato", "Yashar", "Domanski Didion", "Baroczy", "Nishino Yamazaki", "Chisholm Armand", "Thom"}
Bounded == kind = "law" => LET al == Alpha(law, A0(Qual[xi])) IN (law \notin {"Tandon Varma Gupta", "Harms", "Kopte_Newell_Chato", "Graham"} \/ (xi > 2 /\ xi < 7)) => (al \succeq "-0.5" /\ al \preceq "1.05" /\ ((law \notin Free) => al \preceq (Hom(A0(Qual[xi])) ** ("1" ++ "1e-9"))))
\* more gas, more void (except through the transition of the fits)
Grows == (kind = "law" /\ xi > 1 /\ law \notin {"Tandon Varma Gupta", "Harms", "Chisholm_voidage", "Xu Fang voidage", "Kopte_Newell_Chato", "Graham"}) =>
            Alpha(law, A0(Qual[xi])) \succeq (Alpha(law, A0(Qual[xi - 1])) -- "1e-9")
\* a law is listed exactly when its inputs are there, the default always
Usable == kind = "pick" => /\ \E i \in 1 .. Len(Listed(given)) : Listed(given)[i] = "homogeneous"
                           /\ \A l \in Laws : (\E i \in 1 .. Len(Listed(given)) : Listed(given)[i] = l) <=> Needs(l) \subseteq given
\* mixing rules run from one viscosity to the other
MuEnds == (kind = "mu" /\ law # "") => Close(Mu(law, A0("0")), "1e-3", "1e-12") /\ Close(Mu(law, A0("1")), "1e-5", "1e-12")
Emit == (kind = "pick" /\ law # "" => (Needs(law) \subseteq given \/ Cardinality(Needs(law) \ given) = 1)) =>
        EmitPlan([cell |-> <<kind, law, xi, given>>, kind |-> kind, law |-> law, x |-> Qual[xi], xi |-> xi, given |-> given])
=============================================================================
