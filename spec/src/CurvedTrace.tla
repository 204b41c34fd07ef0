---------------------------- MODULE CurvedTrace ----------------------------
EXTENDS TraceBase, Curved
MyInit(e) == 0
Opt(a, f, d) == IF Has(a, f) THEN a[f] ELSE d
Sets(o) == {o[j] : j \in 1 .. Len(o)}
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> Stateless([RefusesUnknown |-> ErrIs(o, "ValueError")])
    [] e.op = "corr" -> Stateless([Correlation |-> CurvedOk(e.method, a.Re, a.Di, a.Dc, Opt(a, "roughness", R("0")), o)])
    [] e.op = "crit" -> Stateless([CriticalRe |-> Close(o, ReCrit(e.method, a.Di, a.Dc), "1e-12")])
    [] e.op = "atcrit" -> Stateless([CurvedFriction |-> CurvedOk(e.turb, a.Re, a.Di, a.Dc, Opt(a, "roughness", R("0")), IF Has(a, "Darcy") /\ IsFalse(a.Darcy) THEN $[ 4*o ] ELSE o)])
    [] e.op = "atlist" -> Stateless([Listed |-> IsSeq(o) /\ Sets(o) = TurbulentCurved])
    [] e.op = "ff" -> Stateless([CurvedFriction |-> CurvedOk(Chosen(a.Re, a.Di, a.Dc, e.method, e.crit, e.lam, e.turb), a.Re, a.Di, a.Dc, Opt(a, "roughness", R("0")), IF Has(a, "Darcy") /\ IsFalse(a.Darcy) THEN $[ 4*o ] ELSE o)])
    [] e.op = "methods" -> Stateless([Listing |-> IsSeq(o) /\ Sets(o) = ListedCurved(a.Re, a.Di, a.Dc, ~(Has(a, "check_ranges") /\ IsFalse(a.check_ranges))) /\ Cardinality(Sets(o)) = Len(o)])
    [] e.op = "martin" -> Stateless([PlateMartin |-> Close(o, Martin1999(a.Re, a.chevron_angle), "1e-9")])
    [] e.op = "vdi" -> Stateless([PlateVDI |-> Close(o, MartinVDI(a.Re, a.chevron_angle), "1e-9")])
    [] e.op = "kumar" -> Stateless([PlateKumar |-> Close(o, Kumar(a.Re, a.chevron_angle), "1e-9")])
    [] e.op = "muley" -> Stateless([PlateMuley |-> Close(o, MuleyManglik(a.Re, a.chevron_angle, a.plate_enlargement_factor), "1e-9")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
