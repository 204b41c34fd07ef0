------------------------------- MODULE ValveK -------------------------------
(* Loss coefficients of valves and tees (Crane), the 2K and 3K methods, and    *)
(* conversions between K, Kv and Cv.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, FittingsNames
RadV(d) == $[ d*pi/180 ]
Seat(K1, b, extra) == IF REq(b, R("1")) THEN K1 ELSE $[ (K1 + extra)/b**4 ]
\* Crane formulas 5 and 6: a seat narrower than the pipe, approached by cones of angle th
Coned(K1, b, th) == LET x == $[ 1 - b*b ] IN Seat(K1, b, $[ sin(th/2)*(0.8*x + 2.6*x*x) if th <= pi/4 else 0.5*sqrt(sin(th/2))*x + x*x ])
Plug(K1, b, th) == LET x == $[ 1 - b*b ] IN Seat(K1, b, $[ 0.5*sqrt(sin(th/2))*x + x*x ])
\* Crane formula 7: abrupt changes
Abrupt(K1, b) == LET x == $[ 1 - b*b ] IN Seat(K1, b, $[ b*(0.5*x + x*x) ])
\* the same with (1 - b)^2 in the contraction, as the library computes globe and angle valves
AbruptShipped(K1, b) == LET x == $[ 1 - b*b ] IN Seat(K1, b, $[ b*(0.5*(1 - b)**2 + x*x) ])
BySize(D, small, mid, large) == IF D \preceq "0.2286" THEN small ELSE IF D \preceq "0.381" THEN mid ELSE large
\* n: kind; b: seat ratio; th: angle in degrees; D: pipe; ft: friction factor.  Kinds and styles as in Crane.
Valve(n, D1, D2, angle, ft) ==
  LET b == $[ D1/D2 ]  f(x) == $[ R(x)*ft ] IN
  CASE n = "gate" -> IF REq(angle, R("0")) THEN f("8") ELSE Coned(f("8"), b, RadV(angle))
    [] n = "globe" -> AbruptShipped(f("340"), b)
    [] n \in {"angle 0", "angle 2"} -> AbruptShipped(f("55"), b)
    [] n = "angle 1" -> AbruptShipped(f("150"), b)
    [] n = "swing" -> f("50")
    [] n = "swing angled" -> f("100")
    [] n = "lift" -> Abrupt(f("600"), b)
    [] n = "lift angled" -> Abrupt(f("55"), b)
    [] n = "tilting 5" -> f(BySize(D2, "40", "30", "20"))
    [] n = "tilting 15" -> f(BySize(D2, "120", "90", "60"))
    [] n = "globe stop 0" -> Abrupt(f("400"), b)
    [] n = "globe stop 1" -> Abrupt(f("300"), b)
    [] n = "globe stop 2" -> Abrupt(f("55"), b)
    [] n = "angle stop 0" -> Abrupt(f("200"), b)
    [] n = "angle stop 1" -> Abrupt(f("350"), b)
    [] n = "angle stop 2" -> Abrupt(f("55"), b)
    [] n = "ball" -> Coned(f("3"), b, RadV(angle))
    [] n = "diaphragm 0" -> f("149")
    [] n = "diaphragm 1" -> f("39")
    [] n = "foot 0" -> f("420")
    [] n = "foot 1" -> f("75")
    [] n = "butterfly 0" -> f(BySize(D2, "45", "35", "25"))
    [] n = "butterfly 1" -> f(BySize(D2, "74", "52", "43"))
    [] n = "butterfly 2" -> f(BySize(D2, "218", "96", "55"))
    [] n = "plug 0" -> Plug(f("18"), b, RadV(angle))
    [] n = "plug 1" -> Plug(f("30"), b, RadV(angle))
    [] n = "plug 2" -> Plug(f("90"), b, RadV(angle))
Valves == {"gate", "globe", "angle 0", "angle 1", "angle 2", "swing", "swing angled", "lift", "lift angled", "tilting 5", "tilting 15", "globe stop 0", "globe stop 1", "globe stop 2",
  "angle stop 0", "angle stop 1", "angle stop 2", "ball", "diaphragm 0", "diaphragm 1", "foot 0", "foot 1", "butterfly 0", "butterfly 1", "butterfly 2", "plug 0", "plug 1", "plug 2"}
\* published (Crane formula 7) value of the valves computed with AbruptShipped
Published(n, D1, D2, ft) == LET b == $[ D1/D2 ] IN CASE n = "globe" -> Abrupt($[ 340*ft ], b) [] n \in {"angle 0", "angle 2"} -> Abrupt($[ 55*ft ], b) [] n = "angle 1" -> Abrupt($[ 150*ft ], b)
\* minimum velocity to lift a check valve: coefficient, and whether the seat ratio enters
Lift(n) == CASE n = "swing check angled" -> <<"45", FALSE>> [] n = "swing check straight" -> <<"75", FALSE>> [] n = "swing check UL" -> <<"120", FALSE>>
    [] n = "lift check straight" -> <<"50", TRUE>> [] n = "lift check angled" -> <<"170", TRUE>> [] n = "tilting check 5 deg" -> <<"100", FALSE>> [] n = "tilting check 15 deg" -> <<"40", FALSE>>
    [] n = "stop check globe 1" -> <<"70", TRUE>> [] n = "stop check angle 1" -> <<"95", TRUE>> [] n \in {"stop check globe 2", "stop check angle 2"} -> <<"75", TRUE>>
    [] n \in {"stop check globe 3", "stop check angle 3"} -> <<"170", TRUE>> [] n = "foot valve poppet disc" -> <<"20", FALSE>> [] n = "foot valve hinged disc" -> <<"45", FALSE>>
LiftStyles == {"swing check angled", "swing check straight", "swing check UL", "lift check straight", "lift check angled", "tilting check 5 deg", "tilting check 15 deg", "stop check globe 1", "stop check angle 1",
  "stop check globe 2", "stop check angle 2", "stop check globe 3", "stop check angle 3", "foot valve poppet disc", "foot valve hinged disc"}
LiftVelocity(n, rho, D1, D2) == $[ R(Lift(n)[1])/sqrt(rho)*((D1/D2)**2 if Lift(n)[2] else 1) ]
\* tees and wyes
FAngle(a) == Interp(a, <<"30", "45", "60", "90">>, <<"1.74", "1.41", "1", "0">>)
FAngleRun(a) == Interp(a, <<"30", "45", "60">>, <<"1.74", "1.41", "1">>)
Tee(n, Dr, Db, Qr, Qb, angle) ==
  LET b == $[ Db/Dr ]  b2 == $[ b*b ]  q == $[ Qb/(Qr + Qb) ] IN
  CASE n = "branch converging" -> LET C == $[ 1 if b2 <= 0.35 else (0.9*(1 - q) if q <= 0.4 else 0.55) ] IN $[ C*(1 + (q/b2)**2 - 2*(1 - q)**2 - FAngle(angle)/b2*q*q) ]
    [] n = "run converging" -> $[ 1.55*q - q*q if angle >= 75 else 1 - (1 - q)**2 - FAngleRun(angle)/b2*q*q ]
    [] n = "branch diverging" ->
         LET wide == $[ angle >= 60 and b > 0.6666666666666666 ]
             G == $[ ((1.1 - 0.7*q if q <= 0.4 else 0.85) if b2 <= 0.35 else (1 - 0.6*q if q <= 0.6 else 0.6)) if angle < 75 else (1 if b2 <= 0.6666666666666666 else 1 + 0.3*q*q) ]
         IN IF wide THEN $[ G*(1 + 0.3*(q/b2)**2) ] ELSE $[ G*(1 + (q/b2)**2 - 2*q/b2*cos(RadV(angle))) ]
    [] n = "run diverging" -> $[ (0.4 if b2 <= 0.4 else (2*(2*q - 1) if q <= 0.5 else 0.3*(2*q - 1)))*q*q ]
Tees == {"branch converging", "run converging", "branch diverging", "run diverging"}
\* conversions
CvPerKv == R("1.1560992283536566")
Convert(n, x, D) == CASE n = "Kv_to_Cv" -> $[ CvPerKv*x ] [] n = "Cv_to_Kv" -> $[ x/CvPerKv ] [] n = "Kv_to_K" -> $[ 1.6e9*D**4/(x*x) ] [] n = "K_to_Kv" -> $[ 4e4*D*D/sqrt(x) ]
    [] n = "K_to_Cv" -> $[ CvPerKv*4e4*D*D/sqrt(x) ] [] n = "Cv_to_K" -> $[ 1.6e9*D**4*CvPerKv*CvPerKv/(x*x) ]
Basis(K, D1, D2) == $[ K*(D2/D1)**4 ]
\* the 3K and 2K methods
Lookup(tbl, n) == LET s == {i \in 1 .. Len(tbl) : tbl[i][1] = n} IN IF s = {} THEN <<>> ELSE tbl[CHOOSE i \in s : TRUE]
Darby(K1, Ki, Kd, Re, NPS) == $[ K1/Re + Ki*(1 + Kd/NPS**0.3) ]
Hooper(K1, Kinf, Re, Din) == $[ K1/Re + Kinf*(1 + 1/Din) ]
\* linear in the table, continued outside along its first and last step
ISorted(x, xs, ys) == LET n == Len(xs)
                          i == IF x \prec xs[2] THEN 1 ELSE CHOOSE j \in 1 .. n - 1 : x \succeq xs[j] /\ (j = n - 1 \/ x \prec xs[j + 1])
                          x1 == xs[i]  y1 == ys[i]  x2 == xs[i + 1]  y2 == ys[i + 1]
                      IN $[ y1 + (x - x1)*(y2 - y1)/(x2 - x1) ]
=============================================================================
