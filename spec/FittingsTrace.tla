--------------------------- MODULE FittingsTrace ---------------------------
EXTENDS TraceBase, Fittings
MyInit(e) == 0
Opt(a, f, d) == IF Has(a, f) THEN a[f] ELSE d
K(o, x) == Stateless([Formula |-> CloseA(o, x, "1e-9", "1e-13")])
Pick(a, f) == IF Has(a, f) THEN a[f] ELSE R("0")
Rc(a) == IF Has(a, "rc") THEN a.rc ELSE IF Has(a, "bend_diameters") THEN (a.bend_diameters ** a.Di) ELSE R("5" ** a.Di)
Lun(a) == IF Has(a, "L_unimpeded") THEN a.L_unimpeded ELSE R("20" ** a.Di)
Fd(e) == IF Has(e.a, "fd") THEN e.a.fd ELSE e.f0
Theta(a) == IF Has(a, "angle") THEN Rad(a.angle) ELSE IF REq(a.l, R("0")) THEN R("3.141592653589793") ELSE ConeAngle(a.Di1, a.Di2, a.l)
\* a contraction takes the angle where both are given, a diffuser the length
ThetaD(a) == IF Has(a, "l") THEN ConeAngle(a.Di1, a.Di2, a.l) ELSE Rad(a.angle)
LengthC(a) == IF Has(a, "angle") THEN ConeLength(a.Di1, a.Di2, Rad(a.angle)) ELSE a.l
LengthD(a) == IF Has(a, "l") THEN a.l ELSE ConeLength(a.Di1, a.Di2, Rad(a.angle))
Bend(e) ==
  LET a == e.a  m == e.method IN
  CASE m = "Rennels" -> BendRennels(a.Di, a.angle, Rc(a), Fd(e))
    [] m = "Crane" -> BendCrane(a.Di, a.angle, Rc(a), e.ft)
    [] m = "Crane standard" -> BendCraneStandard(a.angle, e.ft)
    [] m = "Miller" -> BendMiller(a.Di, a.angle, a.Re, Rc(a), Lun(a), e.fs, e.fr)
    [] m = "Swamee" -> BendSwamee(a.Di, a.angle, Rc(a))
    [] m = "Ito" -> BendIto(a.Di, a.angle, a.Re, Rc(a))
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "entrance_sharp" -> K(o, EntranceSharp(e.method))
    [] e.op = "entrance_distance" -> K(o, EntranceDistance(e.method, a.Di, Pick(a, "t"), IF Has(a, "l") THEN a.l ELSE a.Di))
    [] e.op = "entrance_distance_45_Miller" -> K(o, EntranceDistance45(a.Di, a.Di0))
    [] e.op = "entrance_angled" -> K(o, EntranceAngled(a.angle))
    [] e.op = "entrance_rounded" -> K(o, EntranceRounded(e.method, a.Di, a.rc))
    [] e.op = "entrance_beveled" -> K(o, EntranceBeveled(e.method, a.Di, a.l, a.angle))
    [] e.op = "entrance_beveled_orifice" -> K(o, EntranceBeveledOrifice(a.Di, a.Do, a.l, a.angle))
    [] e.op = "exit_normal" -> K(o, R("1"))
    [] e.op = "bend_rounded" -> K(o, Bend(e))
    [] e.op = "bend_miter" -> K(o, IF e.method = "Miller" THEN MiterMiller(a.Di, a.angle, a.Re, Lun(a), e.fs, e.fr) ELSE Miter(e.method, a.angle, e.ft, Pick(a, "Re")))
    [] e.op = "helix" -> K(o, Helix(a.Di, a.rs, a.pitch, a.N, a.fd))
    [] e.op = "spiral" -> K(o, Spiral(a.Di, a.rmax, a.rmin, a.pitch, a.fd))
    [] e.op = "contraction_sharp" -> K(o, ContractionSharp(e.method, a.Di1, a.Di2, Pick(a, "Re"), Fd(e)))
    [] e.op = "contraction_round" -> K(o, ContractionRound(e.method, a.Di1, a.Di2, a.rc))
    [] e.op = "contraction_conical" -> K(o, ContractionConical(e.method, a.Di1, a.Di2, LengthC(a), Theta(a), Pick(a, "Re"), Fd(e)))
    [] e.op = "contraction_beveled" -> K(o, ContractionBeveled(a.Di1, a.Di2, a.l, a.angle))
    [] e.op = "diffuser_sharp" -> K(o, DiffuserSharp(e.method, a.Di1, a.Di2, Pick(a, "Re"), Fd(e)))
    [] e.op = "diffuser_conical" -> K(o, DiffuserConical(e.method, a.Di1, a.Di2, LengthD(a), ThetaD(a), Pick(a, "Re"), Fd(e)))
    [] e.op = "diffuser_crane" -> K(o, CraneDiffuser((a.Di1 // a.Di2), Theta(a)))
    [] e.op = "diffuser_conical_staged" -> K(o, Staged(e.method, <<a.Di1>> \o a.DEs \o <<a.Di2>>, a.ls, a.fd))
    [] e.op = "diffuser_curved" -> K(o, DiffuserCurved(a.Di1, a.Di2, a.l))
    [] e.op = "diffuser_pipe_reducer" -> K(o, PipeReducer(a.Di1, a.Di2, a.l, a.fd1, IF Has(a, "fd2") THEN a.fd2 ELSE a.fd1))
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
