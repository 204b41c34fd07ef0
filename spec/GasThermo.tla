----------------------------- MODULE GasThermo -----------------------------
(* Compression, expansion and stagnation of an ideal gas.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Rgas == "8.31446261815324"
\* exponent (k-1)/k
Ex(k) == (k -- "1") // k
Work(a) == (((a.Z ** Rgas) ** a.T1) ** (((a.P2 // a.P1) ^^ Ex(a.k)) -- "1")) // (Ex(a.k) ** a.eta)
PolyEta(k, n) == (n ** (k -- "1")) // (k ** (n -- "1"))
EtaS(a, etap) == (((a.P2 // a.P1) ^^ Ex(a.k)) -- "1") // (((a.P2 // a.P1) ^^ (Ex(a.k) // etap)) -- "1")
PCrit(a) == a.P ** (("2" // (a.k ++ "1")) ^^ ("1" // Ex(a.k)))

Calls == {"isothermal_work", "isentropic_work", "T_rise", "efficiency", "exponent", "critical", "critical_isothermal", "is_critical", "stagnation_energy", "stagnation", "stagnation_ideal"}
\* which quantities each relation can be solved for
Solves == [isothermal_work |-> {"W"}, isentropic_work |-> {"W", "P1", "P2", "eta"}, T_rise |-> {"T2"}, efficiency |-> {"eta_s", "eta_p"}, exponent |-> {"n", "eta_p"},
           critical |-> {"T", "P"}, critical_isothermal |-> {"P"}, is_critical |-> {"b"}, stagnation_energy |-> {"E"}, stagnation |-> {"P", "T"}, stagnation_ideal |-> {"T"}]

\* the reported value of the unknown u, given all the others in a
Val(c, u, a) ==
  CASE c = "isothermal_work" -> ((a.Z ** Rgas) ** a.T) ** Ln(a.P2 // a.P1)
    [] c = "isentropic_work" /\ u = "W" -> Work(a)
    [] c = "isentropic_work" /\ u = "eta" -> Work([a EXCEPT !.eta = R("1")]) // a.W
    [] c = "isentropic_work" /\ u \in {"P1", "P2"} -> LET ratio == ("1" ++ ((Ex(a.k) ** (a.W ** a.eta)) // ((Rgas ** a.T1) ** a.Z))) ^^ ("1" // Ex(a.k))
                                                     IN IF u = "P1" THEN a.P2 // ratio ELSE a.P1 ** ratio
    [] c = "T_rise" -> a.T1 ++ ((a.T1 ** (((a.P2 // a.P1) ^^ Ex(a.k)) -- "1")) // a.eta)
    [] c = "efficiency" /\ u = "eta_s" -> EtaS(a, a.eta_p)
    [] c = "efficiency" /\ u = "eta_p" -> (Ex(a.k) ** Ln(a.P2 // a.P1)) // Ln("1" ++ ((((a.P2 // a.P1) ^^ Ex(a.k)) -- "1") // a.eta_s))
    [] c = "exponent" /\ u = "eta_p" -> PolyEta(a.k, a.n)
    [] c = "exponent" /\ u = "n" -> (a.k ** a.eta_p) // ("1" -- (a.k ** ("1" -- a.eta_p)))
    [] c = "critical" /\ u = "T" -> (a.T ** "2") // (a.k ++ "1")
    [] c = "critical" /\ u = "P" -> PCrit(a)
    [] c = "stagnation_energy" -> "0.5" ** (a.V ** a.V)
    [] c = "stagnation" /\ u = "P" -> a.P ** ((a.Tst // a.T) ^^ ("1" // Ex(a.k)))
    [] c = "stagnation" /\ u = "T" -> a.T ** ((a.Pst // a.P) ^^ Ex(a.k))
    [] c = "stagnation_ideal" -> a.T ++ (("0.5" ** (a.V ** a.V)) // a.Cp)
    [] OTHER -> "!none"
============================================================================
