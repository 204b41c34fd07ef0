---------------------------- MODULE VoidageTrace ----------------------------
EXTENDS TraceBase, Voidage
MyInit(e) == <<>>
Given(a, ks) == {k \in ks : IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE FALSE}
Pr(a) == Given(a, {"D", "m", "mul", "mug", "sigma", "P", "Pc"})
\* the void fraction is of order one, the liquid fraction may be the small one
Eq(o, x) == CloseA(o, x, "1e-9", "1e-13")
Meth(a, d) == IF Has(a, "Method") THEN IF Same(a.Method, "None") THEN d ELSE a.Method ELSE d
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "law" -> Stateless([Formula |-> Eq(o, Alpha(e.law, a))])
    [] e.op = "pick" -> Stateless([Selected |-> LET l == Meth(a, "homogeneous") IN
                           IF ~(\E i \in 1 .. Len(Order) : Order[i] = l) THEN ErrIs(o, "ValueError")
                           ELSE IF ~(Needs(l) \subseteq Pr(a)) THEN ErrIs(o, "TypeError") ELSE Eq(o, Alpha(l, a))])
    [] e.op = "list" -> Stateless([Listed |-> o = Listed(Pr(a))])
    [] e.op = "mu" -> Stateless([Mixture |-> LET l == Meth(a, "McAdams")  g == Given(a, {"rhol", "rhog"}) IN
                           IF ~(\E i \in 1 .. 6 : MuOrder[i] = l) THEN ErrIs(o, "ValueError")
                           ELSE IF l \in MuDense /\ g # {"rhol", "rhog"} THEN ErrIs(o, "TypeError") ELSE Close(o, Mu(l, a), "1e-9")])
    [] e.op = "mulaw" -> Stateless([Mixture |-> Close(o, Mu(e.law, a), "1e-9")])
    [] e.op = "mulist" -> Stateless([Listed |-> o = MuListed(Given(a, {"rhol", "rhog"}) = {"rhol", "rhog"})])
    [] e.op = "density" -> Stateless([Density |-> CloseA(o, $[ (a.alpha)*(a.rhog) + (1 - (a.alpha))*(a.rhol) ], "1e-12", "0")])
    [] e.op = "alpha" -> Stateless([Inverse |-> CloseA($[ o*(a.rhog) + (1 - o)*(a.rhol) ], a.rho_lg, "1e-10", "0")])
    [] e.op = "xtt" -> Stateless([Parameter |-> LET n == Opt(a, "n", "None") IN
                           Close(o, IF Same(n, "None") THEN Xg(a, Opt(a, "pow_x", R("0.9")), Opt(a, "pow_rho", R("0.5")), Opt(a, "pow_mu", R("0.1")))
                                    ELSE Xg(a, $[ (2 - n)/2 ], Opt(a, "pow_rho", R("0.5")), $[ n/2 ]), "1e-9")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
