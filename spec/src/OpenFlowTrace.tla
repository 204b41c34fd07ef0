--------------------------- MODULE OpenFlowTrace ---------------------------
EXTENDS TraceBase, OpenFlow
MyInit(e) == <<>>
Eq(o, x) == CloseA(o, x, "1e-9", "0")
Holds(p) == CloseA(p[1], p[2], "1e-9", "0")
Either(F(_), x, o) == Eq(o, F(x)) \/ Eq(o, F($[ x*(1 + 1e-12) ])) \/ Eq(o, F($[ x*(1 - 1e-12) ]))
NOf(n) == IF REq(n, "1") THEN 1 ELSE IF REq(n, "2") THEN 2 ELSE IF REq(n, "3") THEN 3 ELSE IF REq(n, "4") THEN 4 ELSE 0
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "weir" -> Stateless([Formula |-> Eq(o, Weir(e.law, a))])
    [] e.op = "manning" -> Stateless([Formula |-> Eq(o, Manning(a.Rh, a.S, a.n))])
    [] e.op = "chezy" -> Stateless([Formula |-> Eq(o, Chezy(a.Rh, a.S, a.C))])
    [] e.op = "ntoc" -> Stateless([Formula |-> Eq(o, NtoC(a.n, a.Rh))])
    [] e.op = "cton" -> Stateless([Formula |-> Eq(o, NtoC(a.C, a.Rh))])
    [] e.op = "same" -> Stateless([OneVelocity |-> CloseA(e.manning, e.chezy, "1e-12", "0") /\ CloseA(e.back, e.n, "1e-12", "0")])
    [] e.op = "row" -> Stateless([Ordered |-> Len(o) = 3 /\ o[1] \succ "0.005" /\ o[1] \preceq o[2] /\ o[2] \preceq o[3] /\ o[3] \preceq "0.5"])
    [] e.op = "agitator" -> LET t == AgitTime(a) IN Stateless([Formula |-> Eq(o, t.t) \/ Close(t.c, "6370", "1e-9")])
    [] e.op = "rieger" -> Stateless([Formula |-> Eq(o, Rieger(a))])
    [] e.op = "grenville" -> Stateless([Formula |-> Eq(o, $[ 896000*(a.Kp)**(0 - 1.69)/(a.N) ])])
    [] e.op = "tee" -> LET n == NOf(IF Has(a, "n") THEN a.n ELSE R("1"))  L == IF Has(a, "pipe_diameters") THEN a.pipe_diameters ELSE R("5") IN
                       Stateless([Formula |-> IF n = 0 THEN ErrIs(o, "ValueError") ELSE LET B == TeeBof(n, a) IN CloseA(o, TeeCoV(n, B, L), "1e-9", "0") \/ (Close(B, TeeB(n), "1e-9") /\ CloseA(o, TeeCoV(n, TeeB(n), L), "1e-6", "0"))])
    [] e.op = "cov" -> Stateless([Formula |-> Eq(o, $[ ((a.Q1)/(a.Q2))**0.5*(a.Ki)**(a.pipe_diameters) ])])
    [] e.op = "kmix" -> Stateless([Formula |-> Eq(o, $[ (a.K)*(a.fd)*(a.L)/(a.D) ])])
    [] e.op = "salt" -> Stateless([Balance |-> o \succ "0" /\ Holds(Salt(e.law, a, o))])
    [] e.op = "rizk" -> Stateless([Balance |-> o \succ "0" /\ Holds(Rizk(a, o))])
    [] e.op = "geldart" -> Stateless([Formula |-> Eq(o, Geldart(a))])
    [] e.op = "watkins" -> Stateless([Formula |-> LET m == IF Has(a, "method") THEN a.method ELSE "spline" IN Eq(o, KWatkins(a, m))])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "york" -> Stateless([Formula |-> LET p == a.P // Psi IN Either(LAMBDA q : $[ (York(q))*Ft0*(Side(a)) ], p, o)])
    [] e.op = "souders" -> Stateless([Formula |-> Eq(o, $[ (a.K)*(((a.rhol) - (a.rhog))/(a.rhog))**0.5 ])])
    [] e.op = "ktheory" -> Stateless([Formula |-> LET g == IF Has(a, "g") THEN a.g ELSE G0 IN Eq(o, $[ (4*g*(a.D)/(3*(a.Cd)))**0.5 ])])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
