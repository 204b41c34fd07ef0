------------------------------ MODULE BedTrace ------------------------------
EXTENDS TraceBase, Bed
MyInit(e) == <<>>
Opt(a, k, d) == IF Has(a, k) THEN Get(a, k) ELSE d
Tube(a) == Opt(a, "Dt", "None")
Eq(o, x) == CloseA(o, x, "1e-9", "0")
Bed1(x, a, d) == DP(x, d, a.voidage, a.vs, a.rho, a.mu, Opt(a, "L", R("1")), Tube(a))
P(a) == [rhog |-> a.rhog, mug |-> a.mug, voidage |-> a.voidage, a |-> a.specific_area, C1 |-> a.C1, C2 |-> a.C2, C3 |-> a.C3]
Hh(a) == Opt(a, "H", R("1"))
Xx(o, a) == $[ o/((Hh(a))*(a.rhol)*G0) ]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "law" -> Stateless([Formula |-> Eq(o, Bed1(e.law, a, a.dp))])
    [] e.op = "pick" -> Stateless([Selected |-> LET d == IF Has(a, "sphericity") THEN a.dp ** a.sphericity ELSE a.dp
                                                    m == IF Has(a, "Method") THEN IF Same(a.Method, "None") THEN Default(Has(a, "Dt")) ELSE a.Method ELSE Default(Has(a, "Dt")) IN Eq(o, Bed1(m, a, d))])
    [] e.op = "list" -> Stateless([Listed |-> o = Listed(Has(a, "Dt"))])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "void" -> Stateless([Formula |-> Eq(o, Void(e.law, e.d, a.Dt, Opt(a, "sphericity", R("1"))))])
    [] e.op = "experimental" -> Stateless([Formula |-> CloseA(o, $[ 1 - a.m/(pi/4*(a.D)**2*a.H)/a.rho ], "1e-9", "1e-12")])
    [] e.op = "area" -> Stateless([Formula |-> Eq(o, $[ 4*(1 - a.voidage)/a.d ])])
    [] e.op = "demdry" -> Stateless([Formula |-> CloseA(o, IF e.law = "dry" THEN DemDry(a.S, a.voidage, a.vs, a.rho, a.mu, Opt(a, "L", R("1"))) ELSE DemLit(a.S, a.voidage, a.vs, a.rho, a.mu, Opt(a, "L", R("1"))), "1e-8", "0")])
    [] e.op = "demwet" -> Stateless([Formula |-> CloseA(o, DemWet(a.vs, a.voidage, a.d_wire, Opt(a, "L", R("1"))), "1e-5", "0")])
    [] e.op = "demsep" -> Stateless([Formula |-> CloseA(o, DemSep(a.vs, a.voidage, a.d_wire, a.d_drop), "1e-5", "0"), Fraction |-> o \preceq "1" /\ o \succ "0"])
    [] e.op = "demratio" -> Stateless([Proportional |-> CloseA(o[2] // o[1], e.factor, "1e-9", "0")])
    [] e.op = "dry" -> Stateless([Formula |-> Eq(o, Dry(P(a), a.Vg, Hh(a)))])
    [] e.op = "wet" -> Stateless(LET x == Xx(o, a) IN [Balance |-> CloseA(o, Wet(P(a), a.Vg, a.Vl, x, Hh(a)), "1e-6", "0"), BelowFlood |-> Steep(P(a), a.Vg, a.Vl, x) \preceq "1.001", AboveDry |-> o \succeq Dry(P(a), a.Vg, Hh(a))])
    [] e.op = "flood" -> Stateless([FloodPoint |-> LET x == XFlood(P(a), o, a.Vl)  H == Hh(a) IN CloseA($[ x*H*(a.rhol)*G0 ], Wet(P(a), o, a.Vl, x, H), "1e-6", "0")])
    [] e.op = "robbins" -> Stateless([Formula |-> Eq(o, Robbins(a.L, a.G, a.rhol, a.rhog, a.mul, Hh(a), Opt(a, "Fpd", R("24"))))])
    [] e.op = "mesh" -> Stateless([Formula |-> LET k == Mesh(Opt(a, "subtype", "diamond pattern wire"), a.alpha) IN Eq(o, k ** Tilt(Opt(a, "angle", R("0")), FALSE))])
    [] e.op = "screen" -> Stateless([Formula |-> Eq(o, Screen(a.alpha, a.Re) ** Tilt(Opt(a, "angle", R("0")), TRUE))])
    [] e.op = "square" -> Stateless([Table |-> CloseA(o, SqScreen(a.alpha), "1e-9", "1e-12")])
    [] e.op = "square grill" -> Stateless([Formula |-> CloseA(o, SqGrill(a), "1e-9", "1e-12")])
    [] e.op = "round grill" -> Stateless([Spline |-> Eq(o, RdGrill(a))])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
