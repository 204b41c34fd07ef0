----------------------------- MODULE PumpTrace -----------------------------
EXTENDS TraceBase, Pump
MyInit(e) == <<>>
F(o, x) == [Formula |-> CloseA(o, x, "1e-9", "1e-13")]
Op(r, k, d) == IF Has(r, k) THEN Get(r, k) ELSE d
Fl(r, k) == IF Has(r, k) THEN IsTrue(Get(r, k)) ELSE FALSE
IF3(a) == IF Has(a, "phase") THEN IF REq(a.phase, "1") THEN R("1") ELSE Sqrt("3") ELSE Sqrt("3")
Within(x, s) == \E i \in 1 .. Len(s) : Same(x, s[i]) \/ REq(x, s[i])
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "size" -> Stateless(IF Fits(a.P) = {} THEN [Refuses |-> ErrIs(o, "ValueError")] ELSE [LeastSufficient |-> Close(o, Motors[Least(Fits(a.P))], "1e-12"), Sufficient |-> o \succeq a.P])
    [] e.op = "csa" -> Stateless([Table |-> Rounded(o, Csa(a.P, Fl(a, "closed"), IF Has(a, "poles") THEN a.poles ELSE 2, Fl(a, "high_efficiency")))])
    [] e.op = "drive" -> Stateless([Table |-> Rounded(o, Drive(a.P, Op(a, "load", R("1"))))])
    [] e.op = "underload" -> Stateless(F(o, Underloaded(a.P, Op(a, "load", R("0.5")))))
    [] e.op = "corripioP" -> Stateless(F(o, PumpEff(a.Q)))
    [] e.op = "corripioM" -> Stateless(F(o, MotorEff(a.P)))
    [] e.op = "ns" -> Stateless(F(o, ((Op(a, "n", R("3600")) ** Sqrt(a.Q)) // (a.H ^^ "0.75"))))
    [] e.op = "ds" -> Stateless(F(o, ((a.D ** (a.H ^^ "0.25")) // Sqrt(a.Q))))
    [] e.op = "sync" -> Stateless(F(o, (("120" ** a.f) // Op(a, "poles", R("2")))))
    [] e.op = "current" -> Stateless(F(o, (a.P // ((a.V ** Op(a, "PF", R("1"))) ** IF3(a)))))
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "sizes" -> Stateless([Published |-> IsSeq(o) /\ Len(o) = NMotor /\ \A i \in 1 .. NMotor : Close(o[i][1], U_nema_sizes_hp[i], "1e-12") /\ Close(o[i][2], Motors[i], "1e-12")])
    [] e.op = "table" -> Stateless([Published |-> LET t == CASE e.name = "shaft" -> U_fan_shaft [] e.name = "axial" -> U_fan_axial [] e.name = "backward" -> U_fan_backward [] e.name = "cross" -> U_fan_cross [] e.name = "belt" -> U_belt [] e.name = "bearing" -> U_bearing
                                    IN \A i \in 1 .. Len(t) : Has(o, t[i][1]) /\ (IF IsSeq(t[i][2]) THEN CloseSeq(Get(o, t[i][1]), t[i][2], "1e-12", "0") ELSE Close(Get(o, t[i][1]), t[i][2], "1e-12"))])
    [] e.op = "country" -> Stateless([Frequency |-> Within(o.freq, U_residential_power_frequencies), Voltage |-> e.home => \A i \in 1 .. Len(o.voltage) : Within(o.voltage[i], U_voltages_1_phase_residential),
                                      Plugs |-> e.home => \A i \in 1 .. Len(o.plugs) : Within(o.plugs[i], U_electrical_plug_types), Named |-> Len(o.voltage) > 0])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
