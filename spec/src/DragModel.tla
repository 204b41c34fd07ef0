----------------------------- MODULE DragModel -----------------------------
(* A sphere accelerates through the Reynolds classes under each correlation.   *)
EXTENDS Drag, TraceIO
CONSTANT Tier
VARIABLES kind, method, re
vars == <<kind, method, re>>
Edges == <<"1e-3", "0.01", "0.1", "0.3", "1", "10", "20", "100", "260", "1000", "1500", "5000", "10000", "12000", "44000", "50000", "118300", "150000", "200000", "212963.26847812787", "338000", "400000", "999999">>
AllMethods == {Order[i] : i \in 1 .. Len(Order)} \union {""}
Init == \/ kind = "cd" /\ method \in AllMethods /\ re = 1
        \/ kind \in {"terminal", "fall"} /\ method \in AllMethods /\ re = 1
        \/ kind \in {"time", "laminar", "unknown", "song", "hold", "fired"} /\ method = "" /\ re = 1
Next == re < Len(Edges) /\ re' = re + 1 /\ kind \in {"cd", "terminal"} /\ UNCHANGED <<kind, method>>
Spec == Init /\ [][Next]_vars
Re == R(Edges[re])
Ranged(m, x) == m = "" \/ (x \succ ReMin[m] /\ x \prec ReMax[m])
\* in its range every correlation is a drag, and within a small factor of the default
Physical == (kind = "cd" /\ Ranged(method, Re)) => LET c == Cd(method, Re)  d == Cd("", Re) IN c \succ "0" /\ (Re \prec "150000" => c \succ $[ d/2.2 ] /\ c \prec $[ d*4.5 ])
\* the default is continuous at its joins
Near(a, b, t) == CloseA(a, b, t, "0")
Joined == (kind = "cd" /\ method = "" /\ re = 1) => \A x \in {"0.01", "0.1", "212963.26847812787"} : Near(Cd("", $[ x*(1 - 1e-12) ]), Cd("", $[ x*(1 + 1e-12) ]), "1e-8")
\* (the last piece of Clift as documented does not join: known finding)
\* so are the piecewise ones, to the accuracy of their fits
Pieces == (kind = "cd" /\ re = 1) => /\ method = "Morsi_Alexander" => \A i \in 1 .. 7 : Near(MA(R(MAEdges[i]), i), MA(R(MAEdges[i]), i + 1), "0.15")
                                     /\ method = "Clift" => \A i \in 1 .. 7 : Near(Cl(R(ClEdges[i]), i), Cl(R(ClEdges[i]), i + 1), "0.15")
\* Stokes: the terminal velocity balances, the closed solution satisfies its initial value and tends to it
Closed == kind = "laminar" => \A v \in {"0", "1e-6", "-1e-5", "1"} : LET D == R("1e-6") rp == R("2000") r == R("1") mu == R("1e-5") t == Tau(D, rp, mu) IN
             /\ CloseA(StokesV(D, rp, r, mu, R("0"), R(v)), v, "1e-12", "1e-18") /\ CloseA(StokesX(D, rp, r, mu, R("0"), R(v)), "0", "0", "1e-18")
             /\ Near(StokesV(D, rp, r, mu, $[ 60*t ], R(v)), VLam(D, rp, r, mu), "1e-9")
             /\ Near($[ (VLam(D, rp, r, mu))**2 ], Balance("Stokes", VLam(D, rp, r, mu), D, rp, r, mu), "1e-12")
NextRe == IF re = Len(Edges) THEN R("1e6") ELSE R(Edges[re + 1])
\* terminal states: the range of the law from where it is no longer creeping
Lo == IF method = "" THEN Re ELSE RMax(Re, RMax(R("0.02"), IF method = "Ceylan" THEN R("0.2") ELSE $[ 1.01*(ReMin[method]) ]))
Hi == RMin(R("9.7e5"), IF method \in {"", "Stokes"} THEN NextRe ELSE IF method = "Clift" THEN RMin(NextRe, R("330000")) ELSE RMin(NextRe, ReMax[method]))
\* (a law undefined at rest, and the closed form, are not integrated)
Planned == /\ kind = "fall" => method \notin {"Stokes", "Ceylan", "Terfous"}
           /\ kind = "terminal" => Hi \succ $[ 1.0001*Lo ]
Emit == Planned => EmitPlan([cell |-> <<kind, method, re>>, kind |-> kind, method |-> method, Re |-> Edges[re], next |-> NextRe, from |-> Lo, to |-> Hi,
                  lo |-> IF method = "" THEN "0" ELSE ReMin[method], hi |-> IF method = "" THEN "1e6" ELSE ReMax[method]])
=============================================================================
