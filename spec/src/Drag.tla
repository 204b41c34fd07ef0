-------------------------------- MODULE Drag --------------------------------
(* Drag of spheres, the velocity at which drag balances weight, and the        *)
(* motion of a sphere falling from rest or from a given velocity.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
G0 == R("9.80665")
Order == <<"Stokes", "Barati", "Barati_high", "Rouse", "Engelund_Hansen", "Clift_Gauvin", "Morsi_Alexander", "Graf", "Flemmer_Banks", "Khan_Richardson", "Swamee_Ojha", "Yen", "Haider_Levenspiel", "Cheng", "Terfous", "Mikhailov_Freire", "Clift", "Ceylan", "Almedeij", "Morrison", "Song_Xu">>
ReMax == [m \in {Order[i] : i \in 1 .. Len(Order)} |-> CASE m = "Stokes" -> R("0.3") [] m = "Song_Xu" -> R("1e3") [] m = "Terfous" -> R("5e4") [] m = "Mikhailov_Freire" -> R("118300") [] m = "Swamee_Ojha" -> R("1.5e5")
            [] m \in {"Barati_high", "Clift", "Ceylan", "Almedeij", "Morrison"} -> R("1e6") [] OTHER -> R("2e5")]
ReMin == [m \in {Order[i] : i \in 1 .. Len(Order)} |-> IF m \in {"Terfous", "Ceylan"} THEN R("0.1") ELSE R("0")]
Listed(Re, ranged) == SelectSeq(Order, LAMBDA m : ~ranged \/ ((Re \succ ReMin[m] \/ ReMin[m] \preceq "0") /\ Re \prec ReMax[m]))
MA(Re, i) == CASE i = 1 -> $[ 24/Re ] [] i = 2 -> $[ 22.73/Re + 0.0903/Re**2 + 3.69 ] [] i = 3 -> $[ 29.1667/Re - 3.8889/Re**2 + 1.2220 ] [] i = 4 -> $[ 46.5/Re - 116.67/Re**2 + 0.6167 ]
               [] i = 5 -> $[ 98.33/Re - 2778/Re**2 + 0.3644 ] [] i = 6 -> $[ 148.62/Re - 4.75e4/Re**2 + 0.3570 ] [] i = 7 -> $[ 0 - 490.546/Re + 57.87e4/Re**2 + 0.46 ] [] i = 8 -> $[ 0 - 1662.5/Re + 5.4167e6/Re**2 + 0.5191 ]
MAEdges == <<"0.1", "1", "10", "100", "1000", "5000", "10000">>
ClEdges == <<"0.01", "20", "260", "1500", "12000", "44000", "338000", "400000">>
Piece(Re, E) == 1 + Cardinality({i \in 1 .. Len(E) : Re \succeq E[i]})
Cl(Re, i) == LET w == Log10(Re) IN CASE i = 1 -> $[ 24/Re + 3/16 ] [] i = 2 -> $[ 24/Re*(1 + 0.1315*Re**(0.82 - 0.05*w)) ] [] i = 3 -> $[ 24/Re*(1 + 0.1935*Re**0.6305) ] [] i = 4 -> $[ 10**(1.6435 - 1.1242*w + 0.1558*w*w) ]
               [] i = 5 -> $[ 10**(0 - 2.4571 + 2.5558*w - 0.9295*w*w + 0.1049*w*w*w) ] [] i = 6 -> $[ 10**(0 - 1.9181 + 0.6370*w - 0.0636*w*w) ] [] i = 7 -> $[ 10**(0 - 4.3390 + 1.5809*w - 0.1546*w*w) ]
               [] i = 8 -> $[ 29.78 - 5.3*w ] [] i = 9 -> $[ 0.19*w - 0.49 ]
Barati(Re) == $[ 5.4856e9*tanh(4.3774e-9/Re) + 0.0709*tanh(700.6574/Re) + 0.3894*tanh(74.1539/Re) - 0.1198*tanh(7429.0843/Re) + 1.7174*tanh(9.9851/(Re + 2.3384)) + 0.4744 ]
BaratiHigh(R1) == LET Re == RMin(R1, R("1e6")) IN
  $[ 8e-6*((Re/6530)**2 + tanh(Re) - 8*log10(Re)) - 0.4119*exp(0 - 2.08e43/(Re + Re*Re)**4) - 2.1344*exp(0 - (log10(Re*Re + 10.7563)**2 + 9.9867)/Re)
     + 0.1357*exp(0 - ((Re/1620)**2 + 10370)/Re) - 8.5e-3*(2*log10(tanh(tanh(Re))) - 2825.7162)/Re + 2.4795 ]
Almedeij(Re) == LET p4 == $[ 1/((6e-17*Re**2.63)**(0-10) + 0.2**(0-10)) ]
                    p3 == $[ (1.57e8*Re**(0-1.625))**10 ]
                    p2 == $[ 1/((0.148*Re**0.11)**(0-10) + 0.5**(0-10)) ]
                    p1 == $[ (24/Re)**10 + (21*Re**(0-0.67))**10 + (4*Re**(0-0.33))**10 + 0.4**10 ]
                IN $[ (1/(1/(p1 + p2) + 1/p3) + p4)**0.1 ]
SongXu(Re, phi, S) == $[ 24/(Re*phi**0.65*S**0.3)*(1 + 0.35*Re)**0.44 ]
Cd(m, Re) ==
  CASE m = "Stokes" -> $[ 24/Re ]
    [] m = "Barati" -> Barati(Re)
    [] m = "Barati_high" -> BaratiHigh(Re)
    [] m = "Rouse" -> $[ 24/Re + 3/sqrt(Re) + 0.34 ]
    [] m = "Engelund_Hansen" -> $[ 24/Re + 1.5 ]
    [] m = "Clift_Gauvin" -> $[ 24/Re*(1 + 0.152*Re**0.677) + 0.417/(1 + 5070*Re**(0-0.94)) ]
    [] m = "Morsi_Alexander" -> MA(Re, Piece(Re, MAEdges))
    [] m = "Graf" -> $[ 24/Re + 7.3/(1 + sqrt(Re)) + 0.25 ]
    [] m = "Flemmer_Banks" -> $[ 24/Re*10**(0.383*Re**0.356 - 0.207*Re**0.396 - 0.143/(1 + log10(Re)**2)) ]
    [] m = "Khan_Richardson" -> $[ (2.49*Re**(0-0.328) + 0.34*Re**0.067)**3.18 ]
    [] m = "Swamee_Ojha" -> $[ 0.5*(16*((24/Re)**1.6 + (130/Re)**0.72)**2.5 + ((40000/Re)**2 + 1)**(0-0.25))**0.25 ]
    [] m = "Yen" -> $[ 24/Re*(1 + 0.15*sqrt(Re) + 0.017*Re) - 0.208/(1 + 1e4/sqrt(Re)) ]
    [] m = "Haider_Levenspiel" -> $[ 24/Re*(1 + 0.1806*Re**0.6459) + 0.4251/(1 + 6880.95/Re) ]
    [] m = "Cheng" -> $[ 24/Re*(1 + 0.27*Re)**0.43 + 0.47*(1 - exp(0 - 0.04*Re**0.38)) ]
    [] m = "Terfous" -> $[ 2.689 + 21.683/Re + 0.131/Re**2 - 10.616/Re**0.1 + 12.216/Re**0.2 ]
    [] m = "Mikhailov_Freire" -> $[ 3808*(1617933/2030 + 178861/1063*Re + 1219/1084*Re**2)/(681*Re*(77531/422 + 13529/976*Re - Re**2/71154)) ]
    [] m = "Clift" -> Cl(Re, Piece(Re, ClEdges))
    [] m = "Ceylan" -> $[ 1 - 0.5*exp(0.182) + 10.11*Re**(0-2/3)*exp(0.952*Re**(0-0.25)) - 0.03859*Re**(0-4/3)*exp(1.30/sqrt(Re)) + 0.037e-4*Re*exp(0-0.125e-4*Re) - 0.116e-10*Re**2*exp(0-0.444e-5*Re) ]
    [] m = "Almedeij" -> Almedeij(Re)
    [] m = "Morrison" -> $[ 24/Re + 2.6*(Re/5)/(1 + (Re/5)**1.52) + 0.411*(Re/263000)**(0-7.94)/(1 + (Re/263000)**(0-8)) + Re**0.8/461000 ]
    [] m = "Song_Xu" -> SongXu(Re, R("1"), R("1"))
    [] m = "" -> IF Re \prec "0.01" THEN $[ 24/Re ] ELSE IF Re \preceq "0.1" THEN LET w == $[ (Re - 0.01)/0.09 ] IN $[ w*(Barati(Re)) + (1 - w)*24/Re ]
                 ELSE IF Re \preceq "212963.26847812787" THEN Barati(Re) ELSE BaratiHigh(Re)
VLam(D, rp, r, mu) == $[ G0*D*D*(rp - r)/(18*mu) ]
Rey(V, D, r, mu) == $[ r*V*D/mu ]
\* squared velocity at which drag with the coefficient at V balances weight less buoyancy
Balance(m, V, D, rp, r, mu) == $[ 4/3*G0*D*(rp - r)/(r*(Cd(m, Rey(V, D, r, mu)))) ]
\* net acceleration of a sphere falling at V
Acc(m, V, D, rp, r, mu) == IF V \preceq "0" THEN $[ G0*(rp - r)/rp ] ELSE $[ G0*(rp - r)/rp - 0.75*r/(D*rp)*V*V*(Cd(m, Rey(V, D, r, mu))) ]
Tau(D, rp, mu) == $[ D*D*rp/(18*mu) ]
\* closed solution under Stokes' law
StokesV(D, rp, r, mu, t, V) == LET v == VLam(D, rp, r, mu) IN $[ v + (V - v)*exp(0 - t/(Tau(D, rp, mu))) ]
StokesX(D, rp, r, mu, t, V) == LET v == VLam(D, rp, r, mu)  k == Tau(D, rp, mu) IN $[ v*t + (V - v)*k*(1 - exp(0 - t/k)) ]
\* integral over velocity, split where the coefficients have corners
Corners == <<"0.01", "0.1", "1", "10", "20", "100", "260", "1000", "1500", "5000", "10000", "12000", "44000", "212963.26847812787">>
Cuts(D, r, mu, A, B) == LET c == SelectSeq(Corners, LAMBDA x : LET v == $[ x*mu/(r*D) ] IN v \succ RMin(A, B) /\ v \prec RMax(A, B))
                            v == [i \in 1 .. Len(c) |-> $[ (c[i])*mu/(r*D) ]]
                        IN IF A \preceq B THEN <<A>> \o v \o <<B>> ELSE <<A>> \o [i \in 1 .. Len(v) |-> v[Len(v) + 1 - i]] \o <<B>>
Sum2(f, c) == RSum([i \in 1 .. Len(c) - 1 |-> Quad(f, c[i], c[i + 1])])
TimeTo(m, A, B, D, rp, r, mu) == Sum2([v \in Reals |-> R("1") // Acc(m, v, D, rp, r, mu)], Cuts(D, r, mu, A, B))
\* the same for a sphere thrown upwards, speeds counted upwards and falling
AccUp(m, w, D, rp, r, mu) == $[ 0 - G0*(rp - r)/rp - 0.75*r/(D*rp)*w*w*(Cd(m, Rey(w, D, r, mu))) ]
TimeUp(m, A, B, D, rp, r, mu) == Sum2([v \in Reals |-> R("1") // AccUp(m, v, D, rp, r, mu)], Cuts(D, r, mu, A, B))
WayUp(m, A, B, D, rp, r, mu) == Sum2([v \in Reals |-> v // AccUp(m, v, D, rp, r, mu)], Cuts(D, r, mu, A, B))
WayTo(m, A, B, D, rp, r, mu) == Sum2([v \in Reals |-> v // Acc(m, v, D, rp, r, mu)], Cuts(D, r, mu, A, B))
=============================================================================
