---------------------------- MODULE TankOpsTrace ----------------------------
(* Abstract state: configuration, knots of the table (0: none). *)
EXTENDS TraceBase, TankOps
MyInit(e) == [none |-> 0]
VT(x, y, c) == CloseA(x, y, "1e-6", "1e-7" ** ScaleV(c))

Near(c, h, V, atol) == Abs(VolAt(c, h) -- V) \preceq (atol ** ScaleV(c))
GivenBack(e) == Broken([ k \in DOMAIN e.given |-> CloseA(e.out[k], e.given[k], "1e-9", "1e-12") ])

MyStep(s, e) ==
  CASE e.op = "build" -> [st |-> [c |-> e.c, n |-> 0], bad |-> Broken([Constructs |-> IsRec(e.out), MaxLevel |-> Close(e.out.h_max, HMax(e.c), "1e-12"), TotalVolume |-> VT(e.out.V_total, VolAt(e.c, "1e9"), e.c)])]
    [] e.op = "solve V" -> [st |-> s, bad |-> IF ~IsRec(e.out) THEN {"SolvesForVolume"} ELSE
          Broken([ SolvesForVolume |-> Close(e.out.V_total, e.V, "1e-9"),
                   VolumeIsGeometric |-> VT(e.out.V_total, VolAt([e.c EXCEPT !.D = e.out.D, !.L = e.out.L, !.aA = e.out.sideA_a, !.aB = e.out.sideB_a], "1e9"),
                                            [e.c EXCEPT !.D = e.out.D, !.L = e.out.L]),
                   Ratio |-> Close(e.out.L_over_D ** e.out.D, e.out.L, "1e-12"),
                   KeepsWhatWasGiven |-> GivenBack(e) = {} ])]
    [] e.op = "refused" -> [st |-> s, bad |-> Broken([Refused |-> ErrIs(e.out, "ValueError")])]
    [] e.op = "two specs" -> [st |-> s, bad |-> Broken([MeetsBothSpecs |->
            IsSeq(e.out) /\ Cardinality({j \in DOMAIN e.out : CloseSeq(e.out[j], e.want[j], "1e-6", "1e-12")}) * 2 >= Len(e.want)])]
    [] e.op = "thicken" -> [st |-> s, bad |-> IF ~IsRec(e.out) THEN {"AddsThickness"} ELSE
          LET c == s.c  t == e.t  o == e.out IN
          Broken([ AddsThickness |-> Close(o.D, c.D ++ ("2" ** t), "1e-12") /\ Close(o.L, c.L ++ (e.tA ++ e.tB), "1e-12"),
                   HeadThickness |-> /\ c.A # "torispherical" => CloseA(o.sideA_a, IF c.A = "none" THEN R("0") ELSE c.aA ++ e.tA, "1e-12", "1e-14")
                                     /\ c.B # "torispherical" => CloseA(o.sideB_a, IF c.B = "none" THEN R("0") ELSE c.aB ++ e.tB, "1e-12", "1e-14")
                                     /\ c.A = "torispherical" => Close(o.sideA_a, DepthTori(o.D, c.fA, c.kA), "1e-12")
                                     /\ c.B = "torispherical" => Close(o.sideB_a, DepthTori(o.D, c.fB, c.kB), "1e-12"),
                   SourceUnchanged |-> Close(e.after.D, c.D, "1e-12") /\ Close(e.after.L, c.L, "1e-12") ])]
    [] ~Has(s, "c") -> [st |-> s, bad |-> {"Order"}]
    [] e.op = "table" -> [st |-> [s EXCEPT !.n = e.n], bad |-> {}]
    [] e.op = "cheb" -> [st |-> s, bad |-> Broken([Completed |-> ~IsErr(e.out)])]
    [] e.op = "volume" -> [st |-> s, bad |-> Broken([VolumeAtLevel |-> VT(e.out, VolAt(s.c, e.h), s.c)])]
    [] e.op = "area" -> [st |-> s, bad |-> Broken([AreaAtLevel |-> CloseA(e.out, AreaAt(s.c, e.h), "1e-5", "3e-7" ** ScaleA(s.c))])]
    [] e.op = "volume cheb" -> [st |-> s, bad |-> Broken([ChebyshevApproximates |-> Near(s.c, e.h, e.out, "5e-3")])]
    [] e.op = "level cheb" -> [st |-> s, bad |-> Broken([ChebyshevInverts |-> Near(s.c, e.out, e.V, "2e-2")])]
    [] e.op = "level exact" -> [st |-> s, bad |-> Broken([LevelInvertsVolume |-> Near(s.c, e.out, e.V, "3e-7"), InTank |-> e.out \succeq "0" /\ e.out \preceq (HMax(s.c) ** "1.000000001")])]
    [] e.op = "level spline" -> LET n == IF s.n = 0 THEN 100 ELSE s.n IN
          [st |-> [s EXCEPT !.n = n], bad |-> Broken([SplineBetweenKnots |-> SplineOK(s.c, n, e.V, e.out)])]
    [] e.op = "surface" -> [st |-> s, bad |-> Broken([SurfaceIsDerivative |-> CloseA(e.out, CrossAt(s.c, e.h), "1e-3", "1e-4" ** ScaleA(s.c))])]
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
