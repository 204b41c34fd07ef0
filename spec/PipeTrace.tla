----------------------------- MODULE PipeTrace -----------------------------
EXTENDS TraceBase, Pipe
MyInit(e) == <<>>
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "pipe" -> Stateless(IF ~KnownSched(e.sch) THEN [Refuses |-> ErrIs(o, "ValueError")]
                                  ELSE LET i == Sched(e.sch)  S == Pick(i, a) IN IF S = {} THEN [Refuses |-> ErrIs(o, "ValueError")] ELSE [LeastSufficientRow |-> IsSeq(o) /\ CloseSeq(o, Row(i, Least(S)), "1e-12", "0")])
    [] e.op = "gauge" -> Stateless(IF ~KnownWire(e.sch) THEN [Refuses |-> ErrIs(o, "ValueError")]
                                   ELSE LET i == Wire(e.sch)  t == e.inch  last == Inches(i)[NG(i)] IN
                                        IF t \succ Inches(i)[1] /\ Exact(i, t) = {} THEN [Refuses |-> ErrIs(o, "ValueError")]
                                        ELSE IF t \prec last /\ Exact(i, t) = {} THEN [Shipped |-> REq(o, last), IsAGauge |-> REq(o, Gauges(i)[NG(i)])]
                                        ELSE [Gauge |-> REq(o, GaugeFor(i, t))])
    [] e.op = "thickness" -> Stateless(IF ~KnownWire(e.sch) THEN [Refuses |-> ErrIs(o, "ValueError")]
                                       ELSE LET i == Wire(e.sch)  S == {k \in 1 .. NG(i) : REq(Gauges(i)[k], a.gauge)} IN IF S = {} THEN [Refuses |-> ErrIs(o, "ValueError")] ELSE [Table |-> Close(o, (IF e.si THEN Metres(i) ELSE Inches(i))[Least(S)], "1e-12")])
    [] e.op = "erosion" -> Stateless([Formula |-> Close(o, Erosional(a.rho, a.C), "1e-9")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
