--------------------------- MODULE TwoPhaseTrace ---------------------------
EXTENDS TraceBase, TwoPhase
MyInit(e) == <<>>
Eq(o, x) == CloseA(o, x, "1e-7", "0")
Given(a) == {k \in {"rhog", "mul", "mug", "sigma", "P", "Pc", "angle"} : IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE FALSE}
GivenL(a) == {k \in {"rhog", "mul", "mug", "sigma", "P", "Pc"} : IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE FALSE} \union {k \in {"angle"} : IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE TRUE}
Beggs(o, a, acc) == LET b == BB(a)  s == $[ (b.ele) + (b.fric) ]  k == IF acc THEN $[ 1 - (b.ek) ] ELSE R("1") IN CloseA(o ** k, s, "1e-7", $[ 1e-8*(abs(b.ele) + (b.fric)) ])
Law1(o, l, a) == IF l = "Beggs-Brill" THEN Beggs(o, a, FALSE) ELSE Eq(o, Friction(l, a))
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "law" -> Stateless([Formula |-> Eq(o, Friction(e.law, a))])
    [] e.op = "bb" -> Stateless([Formula |-> Beggs(o, a, IF Has(a, "acceleration") THEN IsTrue(a.acceleration) ELSE TRUE)])
    [] e.op = "list" -> Stateless([Listed |-> o = Listed(GivenL(a))])
    [] e.op = "pick" -> Stateless([Selected |-> LET g == Given(a)  l == IF Has(a, "Method") THEN IF Same(a.Method, "None") THEN Default(g) ELSE a.Method ELSE Default(g) IN
                           IF l = "" THEN ErrIs(o, "ValueError") ELSE IF ~(Needs(l) \subseteq g) THEN ErrIs(o, "TypeError") ELSE Law1(o, l, a)])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "accel" -> Stateless([Momentum |-> LET i == Mom(a.xi, a.alpha_i, a.rho_li, a.rho_gi)  f == Mom(a.xo, a.alpha_o, Opt(a, "rho_lo", a.rho_li), Opt(a, "rho_go", a.rho_gi))  G == $[ 4*(a.m)/(pi*(a.D)**2) ]
                              IN CloseA(o, $[ G*G*(f - i) ], "1e-9", $[ 1e-12*G*G*(f + i) ])])
    [] e.op = "daccel" -> Stateless([Momentum |-> LET A == Area(a)  G == Flux(a)
                               t == $[ (1/(a.rhog) - 1/(a.rhol))*(a.dP_dL)*(a.dx_dP) ]  u == $[ (a.dP_dL)*((a.x)*(a.dv_dP_g) + (1 - (a.x))*(a.dv_dP_l)) ]  w == $[ (a.dA_dL)/((RhoH(a))*A) ]
                              IN CloseA(o, $[ 0 - G*G*(t + u - w) ], "1e-9", $[ 1e-12*G*G*(abs(t) + abs(u) + abs(w)) ])])
    [] e.op = "gravity" -> Stateless([Weight |-> LET al == Opt(a, "alpha_o", a.alpha_i)  i == $[ (a.alpha_i)*(a.rho_gi) + (1 - (a.alpha_i))*(a.rho_li) ]  f == $[ al*(Opt(a, "rho_go", a.rho_gi)) + (1 - al)*(Opt(a, "rho_lo", a.rho_li)) ]
                              IN CloseA(o, $[ (Opt(a, "g", G0))*(a.z)*sin((a.angle)*pi/180)*(i + f)/2 ], "1e-9", "1e-9")])
    [] e.op = "dgravity" -> Stateless([Weight |-> CloseA(o, $[ (Opt(a, "g", G0))*sin((a.angle)*pi/180)*((a.alpha)*(a.rhog) + (1 - (a.alpha))*(a.rhol)) ], "1e-9", "1e-9")])
    [] e.op = "taitel" -> LET t == TaitelDukler(a)
                              near == \E d \in {"0.9999999", "1.0000001"} : o[1] = TDRegime(t.X ** d, t.T, t.F, t.K) \/ o[1] = TDRegime(t.X, t.T ** d, t.F, t.K) \/ o[1] = TDRegime(t.X, t.T, t.F ** d, t.K) \/ o[1] = TDRegime(t.X, t.T, t.F, t.K ** d) IN
                          Stateless([Numbers |-> Eq(o[2], t.X) /\ Eq(o[3], t.T) /\ Eq(o[4], t.F) /\ Eq(o[5], t.K), Pattern |-> o[1] = TDRegime(t.X, t.T, t.F, t.K) \/ near])
    [] e.op = "mandhane" -> LET v == MVs(a)  X1 == MX(a)  Y1 == MY(a) IN
                          Stateless([Velocities |-> CloseA(o[2], v.l, "1e-9", "0") /\ CloseA(o[3], v.g, "1e-9", "0"),
                                     Pattern |-> o[1] = Mandhane(v.l, v.g, X1, Y1) \/ \E d \in {"0.99999999", "1.00000001"} : o[1] = Mandhane(v.l ** d, v.g, X1, Y1) \/ o[1] = Mandhane(v.l, v.g ** d, X1, Y1)])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
