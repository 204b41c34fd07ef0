--------------------------- MODULE FrictionModel ---------------------------
(* A client moves its operating point through the regimes of the Moody chart  *)
(* and changes the correlation; the model steps through the Reynolds classes. *)
EXTENDS Friction, TraceIO
CONSTANT Tier
VARIABLES method, re, eps
vars == <<method, re, eps>>
ReEdges == <<"10", "500", "2039.9999999", "2040", "3000", "4000", "5000", "5245", "1e4", "1e7", "5e7", "1e8", "1.5e8", "4e8", "1e9">>
Eps == {"0", "1e-7", "1e-6", "1e-5", "4e-5", "1e-3", "0.01", "0.04", "0.05", "0.09"}
Init == method \in Methods \union {"laminar", "", "Blasius", "von_Karman", "unknown"} /\ re = 1 /\ eps \in Eps
Next == re < Len(ReEdges) /\ re' = re + 1 /\ UNCHANGED <<method, eps>>
Spec == Init /\ [][Next]_vars
\* Every explicit approximation is close to the Colebrook relation at every class edge inside its range.
\* The documented formula of Papaevangelo is not (its logarithm of Re has to be decimal): known finding.
Approximates == (method \in Approximations /\ method # "Papaevangelo_2010" /\ ApproxRange(method, R(ReEdges[re]), R(eps))) =>
                   NearColebrook(Corr(method, R(ReEdges[re]), R(eps)), R(ReEdges[re]), R(eps))
ListingSound == \A c \in BOOLEAN : LET L == Listed(R(ReEdges[re]), R(eps), c) IN L # {} /\ L \subseteq Methods \union {"laminar"}
\* the Rao-Kumar formula divides by the roughness: no smooth pipe
Emit == ~(method = "Rao_Kumar_2007" /\ eps = "0") => EmitPlan([cell |-> <<method, ReEdges[re], eps>>, method |-> method, Re |-> ReEdges[re], eps |-> eps, next |-> IF re = Len(ReEdges) THEN "1e9" ELSE ReEdges[re + 1]])
=============================================================================
