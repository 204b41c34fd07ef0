---------------------------- MODULE ValveKTrace ----------------------------
EXTENDS TraceBase, ValveK, FittingsData
\* Abstract state: the loss a client carries from diameter to diameter, <<K, D>>.
MyInit(e) == <<>>
K(o, x) == [Formula |-> CloseA(o, x, "1e-9", "1e-13")]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "valve" -> [st |-> s, bad |-> Broken(K(o, Valve(e.name, e.D1, e.D2, e.ang, e.f)))
                            \union (IF e.name \in {"globe", "angle 0", "angle 1", "angle 2"} THEN Broken([CraneFormula7 |-> CloseA(o, Published(e.name, e.D1, e.D2, e.f), "1e-9", "1e-13")]) ELSE {})]
    [] e.op = "lift" -> Stateless(K(o, LiftVelocity(e.name, a.rho, e.D1, e.D2)))
    [] e.op = "tee" -> Stateless(K(o, Tee(e.name, a.D_run, a.D_branch, a.Q_run, a.Q_branch, IF Has(a, "angle") THEN a.angle ELSE R("90"))))
    [] e.op = "convert" -> Stateless(K(o, Convert(e.name, e.x, e.D)))
    [] e.op = "darby" -> LET r == IF e.name = "constants" THEN <<"", a.K1, a.Ki, a.Kd>> ELSE Lookup(DarbyTable, e.name)
                         IN Stateless(K(o, Darby(r[2], r[3], r[4], a.Re, IF Has(a, "NPS") THEN a.NPS ELSE ISorted($[ 1000*(a.Di) ], D_S40i, D_NPS40))))
    [] e.op = "hooper" -> LET r == IF e.name = "constants" THEN <<"", a.K1, a.Kinfty>> ELSE Lookup(HooperTable, e.name) IN Stateless(K(o, Hooper(r[2], r[3], a.Re, a.Di)))
    [] e.op = "basis" -> Stateless(K(o, Basis(a.K1, a.D1, a.D2)))
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
