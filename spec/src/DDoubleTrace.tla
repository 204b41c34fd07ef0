---------------------------- MODULE DDoubleTrace ----------------------------
EXTENDS TraceBase, DDouble
MyInit(e) == "None"
Decide(f, x, y, o) ==
  LET w == Eager(<<Exact(f, x, y)>>)[1] IN
  [Normalised |-> Pair(o) /\ Normal(o), Accurate |-> IF ~Pair(o) THEN FALSE ELSE Within(o, w, Room(f, x, y, w))]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "real" -> Stateless(Decide(e.f, V(<<a.x0, a.x1>>), V(<<a.y0, a.y1>>), o))
    \* the register is what the last operation left; the other operand is given
    [] e.op = "start" -> [st |-> o, bad |-> {}]
    [] e.op = "chain" -> [st |-> o, bad |-> Broken(Decide(e.f, V(s), V(<<a.y0, a.y1>>), o))]
    [] e.op = "exactmul" -> Stateless([ErrorFree |-> IF ~Pair(o) THEN FALSE ELSE QEq(V(o), QMul(Q(a.x0), Q(a.x1)))])
    [] e.op = "intpow" -> LET x == V(<<a.x0, a.x1>>)  n == a.n  p == QIPow(x, IF n < 0 THEN -n ELSE n)  w == IF n < 0 THEN QDiv(Q(1), p) ELSE p IN
         Stateless([Normalised |-> Pair(o) /\ Normal(o), Accurate |-> Pair(o) /\ Rel(o, w, IF n \in -2 .. 2 THEN R("3e-31") ELSE R("1e-30"))])
    [] e.op = "pow" -> LET x == V(<<a.x0, a.x1>>)  y == V(<<a.y0, a.y1>>)  l == Eager(<<QMul(y, QLn(x))>>)[1]  w == QExp(l) IN
         Stateless([Normalised |-> Pair(o) /\ Normal(o), Accurate |-> IF ~Pair(o) THEN FALSE ELSE Within(o, w, QMul(QMul(Q("3e-31"), QMax2(QMax2(Q(1), QAbs(y)), QAbs(l))), QAbs(w)))])
    [] e.op = "compare" -> LET x == V(<<a.x0, a.x1>>)  y == V(<<a.y0, a.y1>>) IN
         Stateless([Order |-> IsSeq(o) /\ Same(o, <<QEq(x, y), ~QEq(x, y), QLt(x, y), QLe(x, y), QLt(y, x), QLe(y, x)>>)])
    [] e.op = "cplx" ->
         LET f == e.f  x == XV(<<a.a, a.b, a.c, a.d>>)  y == IF Has(a, "e") THEN XV(<<a.e, a.f, a.g, a.h>>) ELSE <<Q(1), Q(0)>>  w == XV(o) IN
         Stateless([Exact |-> IF ~Quad4(o) THEN FALSE ELSE
            CASE f \in {"mul_imag_dd", "mul_imag_noerrors_dd"} -> XNear(w, XMul(x, y), QMul(XNorm(x), XNorm(y)), "3e-31")
              [] f = "add_imag_dd" -> XNear(w, XAdd(x, y), QAdd(XNorm(x), XNorm(y)), "1e-31")
              [] f = "imag_inv_dd" -> XNear(XMul(w, x), <<Q(1), Q(0)>>, Q(1), "6e-31")
              [] f = "div_imag_dd" -> XNear(XMul(w, y), x, XNorm(x), "6e-31")
              [] f = "sqrt_imag_dd" -> XNear(XMul(w, w), x, XNorm(x), "1e-27")
              [] f = "cbrt_imag_dd" -> XNear(XMul(w, XMul(w, w)), x, XNorm(x), "1e-29"),
          Principal |-> IF ~Quad4(o) THEN FALSE ELSE
            CASE f = "sqrt_imag_dd" -> QLe(Q(0), w[1]) /\ (QEq(x[2], Q(0)) \/ QEq(w[2], Q(0)) \/ (QLt(Q(0), w[2]) <=> QLt(Q(0), x[2])))
              [] f = "cbrt_imag_dd" -> QLe(QAbs(w[2]), QMul(Q("1.7320508075688773"), w[1])) /\ (QEq(x[2], Q(0)) \/ (QLt(Q(0), w[2]) <=> QLt(Q(0), x[2])))
              [] OTHER -> TRUE])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
