--------------------------- MODULE FrictionTrace ---------------------------
EXTENDS TraceBase, Friction
\* Abstract state: nothing is remembered between calls.
MyInit(e) == 0
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> Stateless([RefusesUnknown |-> ErrIs(o, "ValueError")])
    [] e.op = "ff" -> Stateless([FrictionFactor |-> FOk(e.method, a.Re, Get(e, "eD"), ~(Has(a, "Darcy") /\ IsFalse(a.Darcy)), o)])
    [] e.op = "corr" -> Stateless([Correlation |-> Close(o, Corr(e.method, a.Re, Get(a, "eD")), "1e-9"),
                                   NearColebrook |-> (e.method \in Approximations /\ Has(a, "eD") /\ ApproxRange(e.method, a.Re, Get(a, "eD"))) => NearColebrook(o, a.Re, a.eD)])
    [] e.op = "karman" -> Stateless([Correlation |-> Close(o, Corr("von_Karman", R("1"), a.eD), "1e-9")])
    [] e.op = "colebrook" -> Stateless([SolvesColebrook |-> Colebrook(o, a.Re, a.eD, e.tol)])
    [] e.op = "prandtl" -> Stateless([SolvesColebrook |-> Colebrook(o, a.Re, R("0"), R("1e-10"))])
    [] e.op = "methods" -> Stateless([MethodsInRange |-> IsSeq(o) /\ {o[j] : j \in 1 .. Len(o)} = Listed(a.Re, a.eD, ~(Has(a, "check_ranges") /\ IsFalse(a.check_ranges))),
                                      NoDuplicates |-> Cardinality({o[j] : j \in 1 .. Len(o)}) = Len(o)])
    [] e.op = "ft" -> LET eD == R("3.4126825352925e-5" ** (a.D ^^ "-1.0112")) IN Stateless([CraneTurbulent |-> Colebrook(o, R("7.5e6" ** a.D), eD, R(IF a.D \prec "1e-2" THEN "1e-9" ELSE "1e-4"))])
    [] e.op = "transmission" -> Stateless([Transmission |-> Has(a, "fd") => Close(o, R("2" // Sqrt(a.fd)), "1e-12"), TransmissionInverse |-> Has(a, "F") => Close(o, R("4" // (a.F ** a.F)), "1e-12")])
    [] e.op = "dP" -> LET Re == ReOf(a.m, a.mu, a.D)  f == (o // dPFriction("1", a.m, a.rho, a.D, a.L)) IN Stateless([PressureDrop |-> FOk(e.method, Re, (a.roughness // a.D), TRUE, f)])
    [] e.op = "dP_acc" -> Stateless([Acceleration |-> CloseA(o, dPAcc(a.m, a.D, a.rho_o, a.rho_i, IF Has(a, "D_i") THEN a.D_i ELSE a.D), "1e-9", e.atol)])
    [] e.op = "dPdz" -> Stateless([AccelerationGradient |-> CloseA(o, dPdzAcc(a), "1e-9", e.atol)])
    [] e.op = "dP_grav" -> Stateless([Gravitational |-> CloseA(o, dPGrav([angle |-> a.angle, rho |-> a.rho, L |-> IF Has(a, "L") THEN a.L ELSE R("1"), g |-> IF Has(a, "g") THEN a.g ELSE R("9.80665")]), "1e-12", e.atol)])
    [] e.op = "farshad" -> Stateless([FarshadRoughness |-> IF Has(a, "D") THEN Close(o, Farshad(e.c[1], e.c[2], a.D), "1e-12") ELSE Close(o, e.c[3], "1e-15")])
    [] e.op = "material" -> Stateless([RoughnessChoice |-> IF e.kind = "range" THEN Close(o, Choose3(e.c, e.opt), "1e-15") ELSE IF e.kind = "farshad" /\ Has(a, "D") THEN Close(o, Farshad(e.c[1], e.c[2], a.D), "1e-12") ELSE Close(o, e.c[3], "1e-15")])
    [] e.op = "nearest" -> Stateless([ExactNameFound |-> o = e.want])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
