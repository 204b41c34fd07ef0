------------------------------ MODULE PsdModel ------------------------------
(* A client builds a distribution and queries it in several bases in any      *)
(* order; the model walks over the orders of two queries, the answers of which *)
(* must not depend on what was asked before.                                  *)
EXTENDS Psd, TraceIO
CONSTANT Tier
VARIABLES kind, cut, order, hist
vars == <<kind, cut, order, hist>>
Bases == {"None", "0", "1", "2", "3"}
Init == \/ kind \in {"lognormal", "ggs", "rr"} /\ cut \in {"none", "lo", "hi", "both"} /\ order \in {"0", "1", "2", "3"} /\ hist = <<>>
        \/ kind = "discrete" /\ cut \in {"classes", "points"} /\ order \in {"0", "1", "2", "3"} /\ hist = <<>>
        \/ kind = "custom" /\ cut \in {"none", "both"} /\ order \in {"0", "3"} /\ hist = <<>>
        \/ kind = "spacing" /\ cut \in {"linear", "logarithmic", "renard", "ISO", "R20", "R20_3", "R40_3", "R10", "ASTM"} /\ order = "3" /\ hist = <<>>
        \/ kind \in {"sieves", "functions"} /\ cut = "" /\ order = "3" /\ hist = <<>>
Next == /\ kind \notin {"spacing", "sieves", "functions", "custom"} /\ Len(hist) < 2
        /\ \E n \in Bases \union (IF kind = "discrete" THEN {"1.5", "2.5"} ELSE {}) : hist' = Append(hist, n)
        /\ UNCHANGED <<kind, cut, order>>
Spec == Init /\ [][Next]_vars
\* the laws are distributions in every basis where the moment exists
P1 == [kind |-> kind, a |-> IF kind = "rr" THEN R("40") ELSE R("0.2"), b |-> IF kind = "lognormal" THEN R("0.4") ELSE R("3.4"), order |-> R(order),
       lo |-> IF cut \in {"lo", "both"} THEN R("0.05") ELSE "None", hi |-> IF cut \in {"hi", "both"} THEN R("0.18") ELSE "None"]
Laws == (kind \in {"lognormal", "ggs", "rr"} /\ hist = <<>>) => \A n \in Bases :
          /\ \A d \in {"0.06", "0.1", "0.15"} : LET h == R("1e-5")  x == R(d) ++ h  y == R(d) -- h IN CloseA(Pdf(P1, R(d), n), (Cdf(P1, x, n) -- Cdf(P1, y, n)) // (h ++ h), "1e-6", "1e-6")
          /\ CloseA(Cdf(P1, R("1e9"), n), "1", "1e-9", "0") /\ REq(Cdf(P1, R("0"), n), "0")
          /\ \A d \in {"0.06", "0.1", "0.15"} : CloseA(Moment(P1, R("0"), R("0"), d), Cdf0(P1, d), "1e-9", "1e-12")
\* moments are ordered: D[p, q] grows in p
Grows == (kind \in {"lognormal", "ggs", "rr"} /\ hist = <<>>) => \A p \in {"1", "2", "3"} : Mean(P1, R(p), R("0")) \prec Mean(P1, R(p) ++ R("1"), R("0"))
\* the nested sieve series, decreasing
Nested == kind = "sieves" => /\ \A s \in {"R20", "R20_3", "R40_3", "R10"} : \A i \in 1 .. Len(Series[s]) : \E j \in 1 .. Len(U_ISO) : Series[s][i] = U_ISO[j]
                             /\ \A s \in DOMAIN Series : \A i \in 1 .. Len(Series[s]) - 1 : R(Series[s][i]) \succ Series[s][i+1]
                             /\ \A i \in 1 .. Len(U_R20) - 1 : LET q == R(U_R20[i]) // R(U_R20[i+1]) IN q \succ "1.09" /\ q \prec "1.16"
Emit == EmitPlan([cell |-> <<kind, cut, order, hist>>, kind |-> kind, cut |-> cut, order |-> order, hist |-> hist])
=============================================================================
