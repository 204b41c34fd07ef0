------------------------------ MODULE BedModel ------------------------------
EXTENDS Bed, TraceIO
CONSTANT Tier
VARIABLES kind, law, re, tube
vars == <<kind, law, re, tube>>
Edges == <<"1e-3", "0.1", "1", "10", "100", "1000", "1e4", "1e5">>
Tubes == {"none", "narrow", "wide", "fifty"}
Laws == {All[i] : i \in 1 .. Len(All)} \union {""}
Subs == {"round bar screen", "diamond pattern wire", "knotted net", "knotless net"}
Init == \/ kind = "bed" /\ law \in Laws /\ re = 1 /\ tube \in Tubes
        \/ kind = "voidage" /\ law \in {"general", "spherical", "cylindrical", "experimental", "area"} /\ re = 1 /\ tube = "none"
        \/ kind = "demister" /\ law \in {"dry", "lit", "wet", "sep"} /\ re = 1 /\ tube = "none"
        \/ kind = "tower" /\ law \in {"dry", "wet", "flood", "robbins"} /\ re = 1 /\ tube = "none"
        \/ kind = "mesh" /\ law \in Subs \union {"", "bad"} /\ re = 1 /\ tube = "none"
        \/ kind = "screen" /\ law \in {"round", "square", "square grill", "round grill"} /\ re = 1 /\ tube = "none"
        \/ kind = "refuse" /\ law = "" /\ re = 1 /\ tube = "none"
Next == kind = "bed" /\ re < Len(Edges) /\ re' = re + 1 /\ UNCHANGED <<kind, law, tube>>
Spec == Init /\ [][Next]_vars
Re == R(Edges[re])
\* every law drops pressure, less in a more open bed, and more with flow; and they agree within an order of magnitude over ordinary beds
D(x, z, e) == Drop(x, z, e, IF tube = "none" THEN "None" ELSE R("20"))
Sane(x) == x # "Guo, Sun, Zhang, Ding & Liu"
Physical == (kind = "bed" /\ law # "" /\ Sane(law)) => /\ D(law, Re, R("0.4")) \succ "0" /\ D(law, Re, R("0.45")) \prec D(law, Re, R("0.39"))
            /\ LET z == R("1.1") ** Re IN R("1.21") ** D(law, z, R("0.4")) \succ D(law, Re, R("0.4"))
            /\ (re \in 2 .. 6 /\ law # "Hicks") => LET q == D(law, Re, R("0.4")) // D("Ergun", Re, R("0.4")) IN q \succ "0.25" /\ q \prec "3"
\* a tower: wet above dry, the flood point is where the wet curve turns vertical
TP == [rhog |-> R("5"), mug |-> R("5e-5"), voidage |-> R("0.68"), a |-> R("260"), C1 |-> R("32"), C2 |-> R("7"), C3 |-> R("1")]
Tower == (kind = "tower" /\ law = "flood") => LET x == XFlood(TP, R("0.4"), R("5e-3")) IN /\ x \succ "0" /\ x \prec XMax(TP, R("5e-3")) /\ CloseA(Steep(TP, R("0.4"), R("5e-3"), x), "1", "1e-9", "0")
         /\ \A y \in {"0.05", "0.1"} : Wet(TP, R("0.4"), R("5e-3"), R(y), R("1")) \succ Dry(TP, R("0.4"), R("1"))
         /\ LET h == R("1e-5") w(z) == Wet(TP, R("0.4"), R("5e-3"), z, R("1")) IN CloseA(((w(R("0.1") ++ h) -- w(R("0.1") -- h)) // R("2e-4")) // w(R("0.1")), Steep(TP, R("0.4"), R("5e-3"), R("0.1")), "1e-6", "0")
\* the spline passes through the published points; tables are monotone
Tables == kind = "screen" => /\ \A i \in 1 .. 5 : CloseA(RdGrill([alpha |-> R(RdTable[i][1])]), RdTable[i][2], "1e-9", "0")
                             /\ \A i \in 1 .. Len(Ks) - 1 : R(Ks[i]) \succ Ks[i+1] /\ R(Alphas[i]) \prec Alphas[i+1]
                             /\ \A i \in 1 .. Len(Thetas) - 1 : R(Gammas[i]) \succ Gammas[i+1]
Emit == EmitPlan([cell |-> <<kind, law, re, tube>>, kind |-> kind, law |-> law, lo |-> Edges[re], hi |-> IF re = Len(Edges) THEN "1e6" ELSE Edges[re+1], tube |-> tube])
=============================================================================
