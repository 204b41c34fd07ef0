---------------------------- MODULE ReliefTrace ----------------------------
EXTENDS TraceBase, Relief
MyInit(e) == <<>>
F(o, x) == IF x = "refused" THEN [Refuses |-> ErrIs(o, "ValueError")] ELSE [Formula |-> Close(o, x, "1e-9")]
Op(r, k, d) == IF Has(r, k) THEN Get(r, k) ELSE d
Ed(a) == Op(a, "edition", "10E")
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "size" -> Stateless(IF Fits(a.A) = {} THEN [Refuses |-> ErrIs(o, "ValueError")] ELSE [LeastSufficient |-> Close(o, RoundSize(a.A), "1e-12"), Sufficient |-> o \succeq a.A])
    [] e.op = "C" -> Stateless(F(o, CoefC(a.k)))
    [] e.op = "F2" -> Stateless(F(o, F2(a.k, a.P1, a.P2)))
    [] e.op = "N" -> Stateless(F(o, KN(a.P1)))
    [] e.op = "SH" -> Stateless(F(o, Superheat(a.T1, a.P1, Ed(a))))
    [] e.op = "B" -> Stateless(F(o, Kb(Gauge(a.Pset, a.Pback), Op(a, "overpressure", R("0.1")))))
    [] e.op = "W" -> Stateless(F(o, Kw(Gauge(a.Pset, a.Pback))))
    [] e.op = "Kv" -> Stateless(F(o, Kvis(a.Re, Ed(a))))
    [] e.op = "Ag" -> Stateless(F(o, AreaG(a.m, a.T, a.Z, a.MW, a.k, a.P1, Op(a, "P2", Atm), Op(a, "Kd", R("0.975")), Op(a, "Kb", R("1")), Op(a, "Kc", R("1")))))
    [] e.op = "As" -> Stateless(F(o, AreaS(a.m, a.T, a.P1, Op(a, "Kd", R("0.975")), Op(a, "Kb", R("1")), Op(a, "Kc", R("1")), Ed(a))))
    [] e.op = "Al" -> LET Kd == Op(a, "Kd", R("0.65"))  Kc == Op(a, "Kc", R("1"))
                          set == $[ ((a.P1) - Atm)/(1 + (a.overpressure)) + Atm ]
                          kw == IF Has(a, "Kw") THEN a.Kw ELSE Kw(Gauge(set, a.P2))
                          kv == IF Has(a, "Kv") THEN a.Kv ELSE IF Has(a, "mu") THEN VisL(a.m, a.rho, a.P1, a.P2, Kd, Kc, kw, a.mu, Ed(a)) ELSE R("1")
                      IN Stateless(IF kv = "refused" THEN F(o, kv) ELSE F(o, AreaL(a.m, a.rho, a.P1, a.P2, Kd, Kc, kw, kv)))
    [] e.op = "graph" -> Stateless(F(o, Graph(a.P_ratio)))
    [] e.op = "noise" -> Stateless([Formula |-> CloseA(o, Noise521(a.m, a.P1, a.P2, a.c, a.r), "1e-9", "1e-9")])
    [] e.op = "ground" -> Stateless([Formula |-> CloseA(o, Flare(a.m, R("360"), R("100"), R("15")), "1e-9", "1e-9"), TonnesPerHour |-> CloseA(o, Flare(a.m, R("3.6"), R("100"), R("15")), "1e-9", "1e-9")])
    [] e.op = "elevated" -> Stateless([Formula |-> CloseA(o, Flare(a.m, R("360"), R("112"), R("17")), "1e-9", "1e-9"), TonnesPerHour |-> CloseA(o, Flare(a.m, R("3.6"), R("112"), R("17")), "1e-9", "1e-9")])
    [] e.op = "table" -> Stateless([Published |-> IsSeq(o) /\ Len(o) = NSizes /\ (\A i \in 1 .. NSizes : Len(o[i]) = 3 /\ Close(o[i][1], A_API526_A_sq_inch[i], "1e-12") /\ Close(o[i][2], Sizes[i], "1e-12") /\ o[i][3] = A_API526_letters[i])])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
