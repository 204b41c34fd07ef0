---------------------------- MODULE JetPumpTrace ----------------------------
EXTENDS TraceBase, JetPump
MyInit(e) == <<>>
Lost(a, vs) == {v \in vs : IF Has(a, v) THEN Same(Get(a, v), "None") ELSE TRUE}
Full(a, v, o) == [k \in Inlet |-> IF k = v THEN o ELSE Get(a, k)]
\* limits of the tables are in other units: either side within rounding
Near(w(_), t, o) == \E d \in {"1", "0.9999999999", "1.0000000001"} : CloseA(o, w(t ** d), "1e-9", "0")
Cons(a) == IF Has(a, "conservative") THEN IsTrue(a.conservative) ELSE TRUE
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "inlet" -> LET l == Lost(a, Inlet) IN
         IF Cardinality(l) # 1 THEN Stateless([Refuses |-> ErrIs(o, "ValueError")])
         ELSE LET v == CHOOSE x \in l : TRUE  p == Pars(a)
                  cannot == v = "Qs" /\ (a.P1 -- a.P2) \succ Prim(a, p) IN
              Stateless([Balance |-> IF cannot THEN IsNaN(o) \/ IsErr(o)
                                     ELSE LET st == Full(a, v, o) IN /\ IsNum(o)
                                          /\ Abs(InletErr(st, p)) \preceq (IF v \in {"d_nozzle", "d_mixing"} THEN "1e-8" ELSE "1e-10")
                                          /\ (v \in {"P1", "P2"} \/ o \succ "0")
                                          /\ (v \in {"d_nozzle", "d_mixing"} => st.d_nozzle \prec st.d_mixing)])
    [] e.op = "pump" -> LET l == Lost(a, Vars)  p == Pars(a) IN
         IF Cardinality(l) # 2 THEN Stateless([Refuses |-> ErrIs(o, "ValueError")])
         ELSE IF IsErr(o) THEN Stateless([Solved |-> "P5" \notin l /\ ~e.must])
         ELSE Stateless([Kept |-> \A v \in Vars \ l : Same(Get(o, v), Get(a, v)),
                         Positive |-> "P5" \in l \/ \A v \in l : Get(o, v) \succ "0",
                         InletBalance |-> LET x == InletErr(o, p) IN IF "P5" \in l THEN Abs(x) \preceq "1e-8" ELSE Abs(x) \preceq "1e-9" \/ Abs((x ** (((o.P1 ++ o.P2) ++ Prim(o, p)) ++ Sec(o, p)))) \preceq "2e-5",
                         Momentum |-> ("P5" \in l /\ P5Of(o, p) \preceq "0") \/ CloseA(((o.P5 -- o.P2) // (o.P1 -- o.P5)), NRatio(o, p), "1e-8", IF "P5" \in l THEN "1e-9" ELSE "1.1e-5"),
                         Reported |-> /\ Close(o.M, (o.Qs // o.Qp), "1e-12") /\ Close(o.R, Ratio(o), "1e-12")
                                      /\ CloseA(o.N, ((o.P5 -- o.P2) // (o.P1 -- o.P5)), "1e-12", "0") /\ CloseA(o.efficiency, (o.M ** o.N), "1e-12", "0")
                                      /\ Close(o.d_diffuser, p.d_diffuser, "1e-14") /\ Close(o.alpha, ((o.d_mixing // p.d_diffuser) ^^ "2"), "1e-12")])
    [] e.op = "ryans" -> Stateless([Leak |-> LET w(t) == (RyansW(t, Cuft(a.V)) ** Lbh)  t == Torr(a) IN Near(w, t, o)])
    [] e.op = "seider" -> Stateless([Leak |-> CloseA(o, (SeiderW(Torr(a), Cuft(a.V)) ** Lbh), "1e-9", "0"),
                       LeakAsShipped |-> LET w == (SeiderW(Torr(a), Cuft(a.V)))  v == Cuft(a.V) IN CloseA(o, (w ** Lbh), "1e-9", "0") \/ CloseA(o, ((w -- ("0.0009" ** (v ^^ "0.66"))) ** Lbh), "1e-9", "0")])
    [] e.op = "hei" -> Stateless([Leak |-> LET w(t) == (HeiW(t, Cuft(a.V)) ** Lbh)  t == MmHg(a) IN Near(w, t, o)])
    [] e.op = "coker" -> Stateless([Leak |-> LET w(t) == (CokerW(t, Cons(a)) ** Lbh)  t == InHg(a) IN Near(w, t, o)])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
