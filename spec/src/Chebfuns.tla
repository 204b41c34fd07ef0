------------------------------- MODULE Chebfuns ------------------------------
(* Functions represented by Chebyshev series on an interval.  A series is a   *)
(* sequence of coefficients, order 0 first; the polynomial it stands for, in  *)
(* u over [-1, 1], is ChebPoly(c) of module Polys, highest power first.       *)
EXTENDS Polys
\* multiplication of a series by u, and the series of a polynomial
CAdd(c, d) == LET n == IF Len(c) > Len(d) THEN Len(c) ELSE Len(d)
                  At(s, i) == IF i <= Len(s) THEN Q(s[i]) ELSE Q(0)
              IN Eager([i \in 1 .. n |-> QAdd(At(c, i), At(d, i))])
Half == QDiv(Q(1), Q(2))
CMulU(c) == LET At(i) == IF i \in 1 .. Len(c) THEN Q(c[i]) ELSE Q(0)
            IN Eager([i \in 1 .. Len(c) + 1 |-> IF i = 1 THEN QMul(Half, At(2))
                 ELSE IF i = 2 THEN QAdd(At(1), QMul(Half, At(3))) ELSE QMul(Half, QAdd(At(i - 1), At(i + 1)))])
RECURSIVE ToCheb(_)
ToCheb(p) == IF Len(p) = 0 THEN <<Q(0)>> ELSE IF Len(p) = 1 THEN <<Q(p[1])>>
             ELSE LET h == CMulU(ToCheb(SubSeq(p, 1, Len(p) - 1))) IN CAdd(h, <<Q(p[Len(p)])>>)
\* integral over [-1, 1] of a polynomial, and of a series by its own formula
PSum(p) == LET i == PInt(p) IN QSub(QHorner(i, Q(1)), QHorner(i, Q(-1)))
CSum(c) == QSum([i \in 1 .. Len(c) |-> IF i % 2 = 0 THEN Q(0) ELSE QDiv(QMul(Q(2), Q(c[i])), Q(1 - (i - 1)*(i - 1)))])
\* the maps between the interval [lo, hi] and [-1, 1], as linear polynomials
Width(lo, hi) == QSub(Q(hi), Q(lo))
Mid(lo, hi) == QDiv(QAdd(Q(lo), Q(hi)), Q(2))
ToU(lo, hi, x) == QDiv(QSub(QMul(Q(2), Q(x)), QAdd(Q(lo), Q(hi))), Width(lo, hi))
LinU(lo, hi) == Lin(QDiv(QNeg(QAdd(Q(lo), Q(hi))), Width(lo, hi)), QDiv(Q(2), Width(lo, hi)))
\* the operations on functions of x over [lo, hi]
DX(p, lo, hi) == PScale(QDiv(Q(2), Width(lo, hi)), PDer(p))
IX(p, lo, hi) == LET i == PScale(QMul(Half, Width(lo, hi)), PInt(p)) IN PAdd(i, <<QNeg(QHorner(i, Q(-1)))>>)
RX(p, lo, hi, a, b) == LET w == Width(lo, hi) IN PComp(p, Lin(ToU(lo, hi, Mid(a, b)), QDiv(Width(a, b), w)))
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<Q(1)>> ELSE PMul(p, PPow(p, n - 1))
PSub(p, q) == PSubE(p, q)
=============================================================================
