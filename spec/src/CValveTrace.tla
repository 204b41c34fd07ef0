---------------------------- MODULE CValveTrace ----------------------------
EXTENDS TraceBase, CValve
MyInit(e) == <<>>
F(o, x) == [Formula |-> CloseA(o, x, "1e-9", "1e-12")]
Op(r, k, d) == IF Has(r, k) THEN Get(r, k) ELSE d
Flag(r, k) == IF Has(r, k) THEN Get(r, k) = TRUE ELSE TRUE
QL(a) == [rho |-> a.rho, Psat |-> a.Psat, Pc |-> a.Pc, mu |-> a.mu, P1 |-> a.P1, P2 |-> a.P2, Q |-> a.Q, FL |-> Op(a, "FL", R("0.9")), Fd |-> Op(a, "Fd", R("1")), D1 |-> Op(a, "D1", R("1")), D2 |-> Op(a, "D2", R("1")), d |-> Op(a, "d", R("1"))]
QG(a) == [T |-> a.T, MW |-> a.MW, mu |-> a.mu, gamma |-> a.gamma, Z |-> a.Z, P1 |-> a.P1, P2 |-> a.P2, Q |-> a.Q, FL |-> Op(a, "FL", R("0.9")), Fd |-> Op(a, "Fd", R("1")), xT |-> Op(a, "xT", R("0.7")), D1 |-> Op(a, "D1", R("1")), D2 |-> Op(a, "D2", R("1")), d |-> Op(a, "d", R("1"))]
\* a reported factor: absent and None mean the same
Rep(o, k, x) == IF x = None THEN ~Has(o, k) \/ Get(o, k) = None ELSE Has(o, k) /\ Close(Get(o, k), x, "1e-9")
Sized(o, full, w, gas) ==
  IF ~full THEN [Kv |-> Close(o, w.Kv, "1e-9")]
  ELSE IF ~Has(o, "Kv") THEN [Reported |-> FALSE]
  ELSE [Kv |-> Close(Get(o, "Kv"), w.Kv, "1e-9"), Choked |-> Has(o, "choked") /\ Get(o, "choked") = w.choked, Laminar |-> Has(o, "laminar") /\ Get(o, "laminar") = w.laminar,
        Factors |-> Rep(o, "FP", w.FP) /\ Rep(o, IF gas THEN "xTP" ELSE "FLP", w.F2) /\ Rep(o, "FR", w.FR), Reynolds |-> Rep(o, "Rev", w.Rev), Warned |-> Has(o, "warning") = w.warn,
        Other |-> IF gas THEN Rep(o, "Y", w.Y) ELSE Rep(o, "FF", w.FF)]
NL(a) == [m |-> a.m, P1 |-> a.P1, P2 |-> a.P2, Psat |-> a.Psat, rho |-> a.rho, c |-> a.c, Kv |-> a.Kv, d |-> a.d, Di |-> a.Di, FL |-> a.FL, Fd |-> a.Fd, t_pipe |-> a.t_pipe, rho_pipe |-> Op(a, "rho_pipe", R("7800")),
          c_pipe |-> Op(a, "c_pipe", R("5000")), rho_air |-> Op(a, "rho_air", R("1.2")), c_air |-> Op(a, "c_air", R("343")), xFz |-> Op(a, "xFz", None), An |-> Op(a, "An", R("-4.6"))]
NG(a) == [m |-> a.m, P1 |-> a.P1, P2 |-> a.P2, rho |-> a.rho, gamma |-> a.gamma, MW |-> a.MW, Kv |-> a.Kv, d |-> a.d, Di |-> a.Di, t_pipe |-> a.t_pipe, Fd |-> a.Fd, FL |-> Op(a, "FL", None), FLP |-> Op(a, "FLP", None), FP |-> Op(a, "FP", None),
          rho_pipe |-> Op(a, "rho_pipe", R("7800")), c_pipe |-> Op(a, "c_pipe", R("5000")), P_air |-> Op(a, "P_air", R("101325")), c_air |-> Op(a, "c_air", R("343")), An |-> Op(a, "An", R("-3.8")), Stp |-> Op(a, "Stp", R("0.2")),
          T2 |-> Op(a, "T2", a.T1), beta |-> Op(a, "beta", R("0.93"))]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "notimplemented" -> Stateless([Refuses |-> ErrIs(o, "NotImplementedError")])
    [] e.op = "sizeL" -> Stateless(Sized(o, Has(a, "full_output"), SizeL(QL(a), Flag(a, "allow_choked"), Flag(a, "allow_laminar"), Has(a, "d")), FALSE))
    [] e.op = "sizeG" -> Stateless(Sized(o, Has(a, "full_output"), SizeG(QG(a), Flag(a, "allow_choked"), Flag(a, "allow_laminar"), Has(a, "d")), TRUE))
    [] e.op = "noiseL" -> Stateless(F(o, NoiseL(NL(a))))
    [] e.op = "noiseG" -> Stateless(F(o, NoiseG(NG(a))))
    [] e.op = "cavitation_index" -> Stateless(F(o, $[ ((a.P1) - (a.Psat))/((a.P1) - (a.P2)) ]))
    [] e.op = "FF" -> Stateless(F(o, CriticalRatio(a.Psat, a.Pc)))
    [] e.op = "chokeL" -> Stateless(F(o, IF Has(a, "P1") THEN ChokeL2(a.Psat, a.Pc, a.FL, a.P1) ELSE ChokeL1(a.Psat, a.Pc, a.FL, a.P2)))
    [] e.op = "chokeG" -> Stateless(F(o, IF Has(a, "P1") THEN ChokeG2(a.xT, a.gamma, a.P1) ELSE ChokeG1(a.xT, a.gamma, a.P2)))
    [] e.op = "isL" -> Stateless([Agrees |-> o = ChokedL(a.dP, a.P1, a.Psat, a.FF, IF Has(a, "FLP") THEN $[ (a.FLP)/(a.FP) ] ELSE a.FL)])
    [] e.op = "isG" -> Stateless([Agrees |-> o = (a.x \succeq (a.Fgamma ** (IF Has(a, "xT") THEN a.xT ELSE a.xTP)))])
    [] e.op = "Rev" -> Stateless(F(o, ReValve(a.nu, a.Q, a.D1, a.FL, a.Fd, a.C)))
    [] e.op = "loss" -> Stateless(F(o, (IF Has(a, "D1") THEN LossIn(a.d, a.D1) ELSE R("0")) ++ (IF Has(a, "D2") THEN LossOut(a.d, a.D2) ELSE R("0"))))
    [] e.op = "FR" -> LET full == Flag(a, "full_trim") IN [st |-> s, bad |-> Broken(F(o, Factor(a.FL, a.C, a.d, a.Rev, full))) \union (IF a.Rev \prec "10" THEN Broken([AtMostOne |-> o \preceq "1"]) ELSE {})]
    [] e.op = "scale" -> Stateless(F(o, FromKv(ToKv(a.flow_coefficient, a.old_scale), a.new_scale)))
    [] e.op = "opening" -> Stateless([Formula |-> CloseA(o, CASE e.name = "quick" -> Quick(e.x) [] e.name = "equal" -> EqualPct(e.x) [] e.name = "linear" -> e.x, "1e-9", "1e-9")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
