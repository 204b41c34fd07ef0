--------------------------- MODULE TwoPhaseModel ---------------------------
(* The pipe is run through liquid and gas flow classes under every law; the    *)
(* dispatcher is asked with every subset of the optional properties.           *)
EXTENDS TwoPhase, TraceIO
CONSTANT Tier
VARIABLES kind, law, rl, rg, given
vars == <<kind, law, rl, rg, given>>
Laws == {Order[i] : i \in 1 .. Len(Order)}
Opts == {"rhog", "mul", "mug", "sigma", "P", "Pc", "angle"}
Init == \/ kind = "law" /\ law \in Laws \ {"Beggs-Brill"} /\ rl = 1 /\ rg = 1 /\ given = {}
        \/ kind = "limit" /\ law \in {"Friedel", "Gronnerud", "Chisholm", "Baroczy_Chisholm", "Muller_Steinhagen_Heck", "Lombardi_Pedrocchi", "Theissing", "Tran", "Zhang_Webb", "Lockhart_Martinelli"} /\ rl = 1 /\ rg = 1 /\ given = {}
        \/ kind = "chisholm" /\ law \in {"Chisholm", "Baroczy_Chisholm"} /\ rl \in 1 .. 3 /\ rg \in 1 .. 4 /\ given = {}
        \/ kind = "bb" /\ law = "Beggs-Brill" /\ rl \in 1 .. 5 /\ rg \in 1 .. 4 /\ given = {}
        \/ kind = "dispatch" /\ law \in Laws \union {""} /\ rl = 1 /\ rg = 1 /\ given = {}
        \/ kind \in {"unknown", "accel", "gravity", "taitel", "mandhane", "flowtype", "lmrec"} /\ law = "" /\ rl = 1 /\ rg = 1 /\ given = {}
Flow == kind = "law" /\ ((rl < 4 /\ rl' = rl + 1 /\ rg' = rg) \/ (rg < 4 /\ rg' = rg + 1 /\ rl' = rl)) /\ UNCHANGED <<kind, law, given>>
Give == kind = "dispatch" /\ \E p \in Opts \ given : given' = given \union {p} /\ UNCHANGED <<kind, law, rl, rg>>
Next == Flow \/ Give
Spec == Init /\ [][Next]_vars
A0 == [m |-> R("0.6"), x |-> R("0.1"), rhol |-> R("915"), rhog |-> R("2.67"), mul |-> R("180e-6"), mug |-> R("14e-6"), sigma |-> R("0.0487"), D |-> R("0.05"), L |-> R("1"), P |-> R("1e6"), Pc |-> R("2e7"), angle |-> R("0")]
With(x) == [A0 EXCEPT !.x = R(x)]
\* all laws give a drop of the same order, more than the liquid alone
Order1 == (kind = "law" /\ rl = 1 /\ rg = 1) => LET q == (Friction(law, A0) // Friction("Friedel", A0)) IN q \succ "0.05" /\ q \prec "30"
\* single-phase limits: no gas is liquid flow, no liquid gas flow
Ends == kind = "limit" => LET lo == With("0")  hi == With("1") IN
          /\ law \notin {"Lombardi_Pedrocchi", "Lockhart_Martinelli"} => Close(Friction(law, lo), PLo(lo), "1e-9")
          /\ law \in {"Friedel", "Chisholm", "Baroczy_Chisholm", "Muller_Steinhagen_Heck", "Theissing"} => Close(Friction(law, hi), PGo(hi), "1e-9")
\* the listed methods are those that can be called, the default is among them
Chosen == kind = "dispatch" => /\ Default(given) # "" => \E i \in 1 .. Len(Listed(given)) : Listed(given)[i] = Default(given)
                               /\ Default(given) = "" <=> Listed(given) = <<>>
\* the pieces of the Mandhane map join to the accuracy of the chart, and the Beggs-Brill regimes cover everything
Maps == kind = "mandhane" => /\ \A v \in {"0.1", "0.2", "1.15", "4.8"} : CloseA(M1345(R(v)), M1345((v ** ("1" ++ "1e-9"))), "0.02", "0")
                             /\ \A v \in {"0.1", "0.3", "0.56", "1", "2.5"} : CloseA(M456(R(v)), M456((v ** ("1" ++ "1e-9"))), "0.05", "0")
Emit == (kind = "dispatch" /\ law # "" => (Needs(law) \subseteq given \/ Cardinality(Needs(law) \ given) = 1)) =>
        EmitPlan([cell |-> <<kind, law, rl, rg, given>>, kind |-> kind, law |-> law, rl |-> rl, rg |-> rg, given |-> given])
=============================================================================
