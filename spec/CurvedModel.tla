---------------------------- MODULE CurvedModel ----------------------------
(* A coil is operated through rising flow: laminar, transitional, turbulent.  *)
EXTENDS Curved, TraceIO
CONSTANT Tier
VARIABLES kind, ratio, re
vars == <<kind, ratio, re>>
ReEdges == <<"1", "10", "15", "40", "100", "300", "400", "500", "1000", "2000", "2040", "5000", "8000", "12000", "2.2e4", "1e5", "1e6">>
Ratios == {"0.005", "0.02", "0.1", "0.3"}
Angles == {"20", "30", "40", "45", "50", "55", "60", "65", "70"}
Kinds == LaminarCurved \union TurbulentCurved \union {"", "unknown", "plate", "crit"} \union {c \o "/crit" : c \in ReCritMethods}
Init == kind \in Kinds /\ ratio \in (IF kind = "plate" THEN Angles ELSE Ratios) /\ re = 1
Next == re < Len(ReEdges) /\ re' = re + 1 /\ UNCHANGED <<kind, ratio>>
Spec == Init /\ [][Next]_vars
RR == R(ReEdges[re])
D1 == R("1")
\* coiling never reduces the friction of a straight tube; friction falls while Re rises within a branch
Raises == kind \in LaminarCurved \union RoughCurved => Factor(kind, RR, R(ratio), D1) \succeq "0.9999"
CritRising == kind = "crit" => \A c \in ReCritMethods : ReCrit(c, R(ratio), D1) \prec ReCrit(c, R(ratio) ** "1.1", D1) /\ ReCrit(c, R(ratio), D1) \succ "2000"
PlateDark == kind = "plate" => Kumar(RR, R(ratio)) \succ "0" /\ Martin1999(RR, R(ratio)) \succ "0"
ListingSound == ListedCurved(RR, R(ratio), D1, TRUE) \subseteq ListedCurved(RR, R(ratio), D1, FALSE)
Emit == EmitPlan([cell |-> <<kind, ratio, ReEdges[re]>>, kind |-> kind, ratio |-> ratio, Re |-> ReEdges[re], next |-> IF re = Len(ReEdges) THEN "1e6" ELSE ReEdges[re + 1]])
=============================================================================
