---------------------------- MODULE ReliefModel ----------------------------
(* Selecting a relief valve: the search over the standard sizes, one per step, *)
(* and the cells of the correction tables.                                     *)
EXTENDS Relief, TraceIO
CONSTANT Tier
VARIABLES kind, opt, band, need, at, found
vars == <<kind, opt, band, need, at, found>>
Kinds == {"size", "gas", "steam", "liquid", "Kb", "Kw", "Kv", "SH", "noise", "C"}
Opts(k) == CASE k \in {"steam", "SH", "Kv", "liquid"} -> {"7E", "10E", "default"} [] k = "Kb" -> {"0.1", "0.16", "0.21", "default"} [] OTHER -> {"any"}
Bands(k) == CASE k = "size" -> 0 .. 14 [] k = "gas" -> 0 .. 3 [] k \in {"steam", "SH"} -> 0 .. 17 [] k = "liquid" -> 0 .. 5 [] k = "Kb" -> 0 .. 7 [] k = "Kw" -> 0 .. 9 [] k = "Kv" -> 0 .. 5 [] k = "noise" -> 0 .. 3 [] k = "C" -> 0 .. 2
Needs == {IF i = 0 THEN R("1e-6") ELSE Sizes[i] ** R(f) : i \in 0 .. 14, f \in {"0.999", "1", "1.001"}}
Init == /\ kind \in Kinds /\ opt \in Opts(kind) /\ band \in Bands(kind) /\ at = 1 /\ found = FALSE
        /\ need \in (IF kind = "size" THEN IF band = 0 THEN {R("1e-6")} ELSE {Sizes[band] ** R(f) : f \in {"0.999", "1", "1.001"}} ELSE {R("0")})
Next == /\ kind = "size" /\ ~found /\ at <= NSizes
        /\ IF Sizes[at] \succeq need THEN found' = TRUE /\ at' = at ELSE found' = FALSE /\ at' = at + 1
        /\ UNCHANGED <<kind, opt, band, need>>
Spec == Init /\ [][Next]_vars
\* the linear search finds the least sufficient size, or none is large enough
LeastFit == /\ found => REq(Sizes[at], RoundSize(need)) /\ Sizes[at] \succeq need
            /\ (kind = "size" /\ at > NSizes) => Fits(need) = {}
Ascending == \A i \in 1 .. NSizes - 1 : Sizes[i] \prec Sizes[i + 1]
Falling(xs, ys) == \A i \in 1 .. Len(xs) - 1 : xs[i] \prec xs[i + 1] /\ ys[i + 1] \preceq ys[i]
Tables == (kind = "Kb" /\ band = 0) => Falling(A_Kb_10_over_x, A_Kb_10_over_y) /\ Falling(A_Kb_16_over_x, A_Kb_16_over_y) /\ Falling(A_Kw_x, A_Kw_y)
\* superheat corrections only shrink with temperature at one pressure, and never exceed 1
SuperheatFalls == (kind = "SH" /\ band = 0 /\ opt = "7E") => \A j \in 1 .. Len(A_KSH_factors_7E) : \A i \in 1 .. 9 : A_KSH_factors_7E[j][i + 1] \preceq A_KSH_factors_7E[j][i] /\ A_KSH_factors_7E[j][i] \preceq "1"
Emit == at = 1 /\ ~found => EmitPlan([cell |-> <<kind, opt, band>>, kind |-> kind, opt |-> opt, band |-> band])
=============================================================================
