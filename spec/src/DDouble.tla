------------------------------ MODULE DDouble ------------------------------
(* Pairs of binary64 numbers standing for their exact sum.                    *)
EXTENDS Polys
V(p) == QAdd(Q(p[1]), Q(p[2]))
Pair(o) == IF ~IsSeq(o) THEN FALSE ELSE IF Len(o) # 2 THEN FALSE ELSE IsNum(o[1]) /\ IsNum(o[2])
Quad4(o) == IF ~IsSeq(o) THEN FALSE ELSE IF Len(o) # 4 THEN FALSE ELSE \A i \in 1 .. 4 : IsNum(o[i])
\* the small part is at most half a unit in the last place of the large
Normal(o) == IF ~Finite(o[1]) \/ ~Finite(o[2]) THEN FALSE ELSE QLe(QAbs(Q(o[2])), QMul(Q("2.220446049250313e-16"), QAbs(Q(o[1]))))
QMax2(x, y) == IF QLe(x, y) THEN y ELSE x
Within(o, w, err) == IF ~Finite(o[1]) \/ ~Finite(o[2]) THEN FALSE ELSE QLe(QAbs(QSub(V(o), w)), err)
Rel(o, w, tol) == Within(o, w, QMul(Q(tol), QAbs(w)))
RECURSIVE QIPow(_, _)
QIPow(x, n) == IF n = 0 THEN Q(1) ELSE LET h == Eager(<<QIPow(x, n \div 2)>>)[1]  s == QMul(h, h) IN IF n % 2 = 1 THEN QMul(s, x) ELSE s
\* exact result of an operation on exact values, and the error allowed
Exact(f, x, y) ==
  CASE f = "add_dd" -> QAdd(x, y) [] f = "mul_dd" -> QMul(x, y) [] f = "div_dd" -> QDiv(x, y)
    [] f = "square_dd" -> QMul(x, x) [] f = "cube_dd" -> QMul(x, QMul(x, x))
    [] f = "sqrt_dd" -> QSqrt(x) [] f \in {"cbrt_dd", "cbrt_explicit_dd"} -> QCbrt(x)
    [] f = "exp_dd" -> QExp(x) [] f = "log_dd" -> QLn(x)
Room(f, x, y, w) ==
  CASE f = "add_dd" -> QMul(Q("4e-32"), QAdd(QAbs(x), QAbs(y)))
    [] f \in {"mul_dd", "square_dd", "cube_dd"} -> QMul(Q("1.5e-31"), QAbs(w))
    [] f = "div_dd" -> QMul(Q("2.5e-31"), QAbs(w)) [] f = "sqrt_dd" -> QMul(Q("1.2e-31"), QAbs(w))
    [] f \in {"cbrt_dd", "cbrt_explicit_dd"} -> LET l == Eager(<<QAdd(Q(10), QAbs(QLn(QAbs(x))))>>)[1] IN QMul(QMul(Q("8e-33"), QMul(l, l)), QAbs(w))
    [] f = "exp_dd" -> QMul(QMul(Q("2e-31"), QMax2(Q(1), QAbs(x))), QAbs(w))
    [] f = "log_dd" -> QMul(Q("2e-31"), QMax2(Q(1), QAbs(w)))
\* complex numbers as <<re, im>> of exact values
XAdd(u, v) == <<QAdd(u[1], v[1]), QAdd(u[2], v[2])>>
XMul(u, v) == <<QSub(QMul(u[1], v[1]), QMul(u[2], v[2])), QAdd(QMul(u[1], v[2]), QMul(u[2], v[1]))>>
XNorm(u) == QAdd(QMul(u[1], u[1]), QMul(u[2], u[2]))
XInv(u) == LET n == XNorm(u) IN <<QDiv(u[1], n), QDiv(QNeg(u[2]), n)>>
XDist(u, v) == XNorm(<<QSub(u[1], v[1]), QSub(u[2], v[2])>>)
XV(o) == <<QAdd(Q(o[1]), Q(o[2])), QAdd(Q(o[3]), Q(o[4]))>>
XNear(u, v, scale, tol) == QLe(XDist(u, v), QMul(QMul(Q(tol), Q(tol)), scale))
=============================================================================
