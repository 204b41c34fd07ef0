----------------------------- MODULE Interpolate ----------------------------
(* Searching sorted tables, interpolation in one and two dimensions, splines, *)
(* the trapezoid rule and adaptive quadrature, over the exact rationals.      *)
EXTENDS Polys, QuadData
None(x) == IF IsStr(x) THEN x = "None" ELSE FALSE
Opt(a, k, d) == IF Has(a, k) THEN (IF None(Get(a, k)) THEN d ELSE Get(a, k)) ELSE d
Given(a, k) == Has(a, k) /\ ~None(Get(a, k))
\* how many entries of a sorted sequence are at most x
RECURSIVE CountLe(_, _, _)
CountLe(x, s, n) == IF n = 0 THEN 0 ELSE IF s[n] \preceq x THEN n ELSE CountLe(x, s, n - 1)
\* the straight line through points i and i + 1: <<value, sum of the sizes of its terms>>
LineQ(x, xs, ys, i) ==
  LET t == QDiv(QSub(Q(x), Q(xs[i])), QSub(Q(xs[i + 1]), Q(xs[i])))
      d == QMul(QSub(Q(ys[i + 1]), Q(ys[i])), t)
  IN <<QAdd(Q(ys[i]), d), QAdd(QAdd(QAbs(Q(ys[i])), QAbs(Q(ys[i + 1]))), QMul(QAdd(QAbs(Q(ys[i])), QAbs(Q(ys[i + 1]))), QAbs(t)))>>
Exactly(y) == <<Q(y), Q(0)>>
Linear1(x, xs, ys, left, right, extra) ==
  LET n == Len(xs)  j == CountLe(x, xs, n) IN
  IF j = 0 THEN (IF IsNum(left) THEN Exactly(left) ELSE IF extra THEN LineQ(x, xs, ys, 1) ELSE Exactly(ys[1]))
  ELSE IF REq(x, xs[j]) THEN Exactly(ys[j])
  ELSE IF j = n THEN (IF IsNum(right) THEN Exactly(right) ELSE IF extra THEN LineQ(x, xs, ys, n - 1) ELSE Exactly(ys[n]))
  ELSE LineQ(x, xs, ys, j)
Near(v, w, rel) == IF QEq(w[2], Q(0)) THEN (IF IsNum(v) THEN QEq(Q(v), w[1]) ELSE FALSE) ELSE QClose(v, w[1], "0", ToR(QMul(Q(rel), w[2])))
\* rows are lines in x at each y
Linear2(x, y, xs, ys, rows) ==
  LET m == Len(ys)  j == CountLe(y, ys, m)  i == IF j = 0 THEN 1 ELSE IF j >= m THEN m - 1 ELSE j
      lo == Linear1(x, xs, rows[i], "None", "None", TRUE)  hi == Linear1(x, xs, rows[i + 1], "None", "None", TRUE)
      t == QDiv(QSub(Q(y), Q(ys[i])), QSub(Q(ys[i + 1]), Q(ys[i])))
      sz(i1) == QSum([k \in 1 .. Len(rows[i1]) |-> QAbs(Q(rows[i1][k]))])
      far == LET u == QAbs(QDiv(QSub(Q(x), Q(xs[1])), QSub(Q(xs[2]), Q(xs[1]))))  v == QAbs(QDiv(QSub(Q(x), Q(xs[Len(xs)])), QSub(Q(xs[Len(xs)]), Q(xs[Len(xs) - 1])))) IN QAdd(Q(1), QAdd(u, v))
  IN <<QAdd(lo[1], QMul(t, QSub(hi[1], lo[1]))), QMul(far, QMul(QAdd(sz(i), sz(i + 1)), QAdd(Q(1), QAbs(t))))>>
\* B-splines by de Boor's recursion in knot span l (t[l] .. t[l + 1], counting from 1)
SpanOf(t, k, x) == LET n == Len(t)  m == CountLe(x, t, n) IN IF m < k + 1 THEN k + 1 ELSE IF m > n - k - 1 THEN n - k - 1 ELSE m
RECURSIVE DB(_, _, _, _, _, _)
DB(t, c, k, x, r, i) ==
  IF r = 0 THEN Q(c[i])
  ELSE LET al == QDiv(QSub(Q(x), Q(t[i])), QSub(Q(t[i + k - r + 1]), Q(t[i])))
       IN QAdd(QMul(al, DB(t, c, k, x, r - 1, i)), QMul(QSub(Q(1), al), DB(t, c, k, x, r - 1, i - 1)))
SplineQ(t, c, k, x) == LET l == SpanOf(t, k, x) IN DB(t, c, k, x, k, l)
Held(x, lo, hi) == RMax(lo, RMin(x, hi))
EndLo(t, k) == t[k + 1]
EndHi(t, k) == t[Len(t) - k]
Spline2Q(tx, ty, c, kx, ky, x, y) ==
  LET nx == Len(tx) - kx - 1  ny == Len(ty) - ky - 1
      x1 == Held(x, EndLo(tx, kx), EndHi(tx, kx))  y1 == Held(y, EndLo(ty, ky), EndHi(ty, ky))
      l == SpanOf(tx, kx, x1)  ly == SpanOf(ty, ky, y1)
      row == Eager([i \in 1 .. nx |-> IF i < l - kx \/ i > l THEN Q(0) ELSE DB(ty, [j \in 1 .. ny |-> c[(i - 1)*ny + j]], ky, y1, ky, ly)])
  IN DB(tx, row, kx, x1, kx, l)
BigC(c) == RMaxSeq([i \in 1 .. Len(c) |-> Abs(c[i])])
\* running trapezoids
RECURSIVE Trap(_, _, _, _)
Trap(y, h, i, acc) == IF i >= Len(y) THEN <<>> ELSE LET q == Eager(<<QAdd(acc, QDiv(QMul(QAdd(Q(y[i]), Q(y[i + 1])), Q(h[i])), Q(2)))>>) IN q \o Trap(y, h, i + 1, q[1])
\* the quadrature rule
RuleAt(a, b, k) == LET p == R(GKP[k]) IN $[ a*(0.5*(1 - p)) + b*(0.5*(1 + p)) ]
\* moments of the rule, against those of the integral
Moment(w, m, odd) == QSum([k \in 1 .. Len(w) |-> QMul(Q(w[k]), QPow(Q(GKP[IF odd THEN 2*k ELSE k]), m))])
TrueMoment(m) == IF m % 2 = 1 THEN Q(0) ELSE QDiv(Q(2), Q(m + 1))
\* integral of a polynomial (highest power first) between a and b
PArea(p, a, b) == LET i == PInt(QSeq(p)) IN QSub(QHorner(i, Q(b)), QHorner(i, Q(a)))
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<Q(1)>> ELSE PMul(PPow(p, n - 1), p)
\* integral over y in [a, b] of the integral over x between two straight lines lo(y), hi(y), of sum c[i][j] x^(i-1) y^(j-1)
MonoY(j) == PPow(<<Q(1), Q(0)>>, j)
DblPoly(c, lo, hi) == LET term(i, j) == PScale(QDiv(Q(c[i][j]), Q(i)), PMul(MonoY(j - 1), PAdd(PPow(QSeq(hi), i), PScale(Q(-1), PPow(QSeq(lo), i)))))
                      IN [f |-> [i \in 1 .. Len(c) |-> [j \in 1 .. Len(c[i]) |-> term(i, j)]]]
RECURSIVE PSumAll(_)
PSumAll(s) == IF s = <<>> THEN <<>> ELSE PAdd(Head(s), PSumAll(Tail(s)))
DblArea(c, lo, hi, a, b) == LET g == DblPoly(c, lo, hi).f  p == PSumAll([i \in 1 .. Len(g) |-> PSumAll(g[i])]) IN PArea(p, a, b)
=============================================================================
