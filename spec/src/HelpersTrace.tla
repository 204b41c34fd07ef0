---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS TraceBase, Helpers
MyInit(e) == [memo |-> <<>>, vals |-> <<>>, calls |-> 0]
Tol(q, t) == ToR(QMul(Q(t), QAdd(Q("1e-300"), q)))
QSeqClose(o, w, tol) == IsSeq(o) /\ Len(o) = Len(w) /\ \A i \in 1 .. Len(w) : QClose(o[i], w[i], "1e-13", tol)
SpaceAt(a, i) == LET n == a.num  den == IF a.endpoint THEN n - 1 ELSE n IN
  IF den = 0 THEN Q(a.start) ELSE QAdd(Q(a.start), QMul(Q(i - 1), QDiv(QSub(Q(a.stop), Q(a.start)), Q(den))))
Spaced(a, o) ==
  LET n == a.num  y == IF a.retstep THEN o[1] ELSE o  w == Eager([i \in 1 .. n |-> SpaceAt(a, i)])  tol == Tol(QAdd(QAbs(Q(a.start)), QAbs(Q(a.stop))), "2e-14") IN
  /\ IsSeq(y) /\ Len(y) = n /\ \A i \in 1 .. n : QClose(y[i], w[i], "0", tol)
  /\ n >= 1 => REq(y[1], a.start)
  /\ (n >= 2 /\ a.endpoint) => REq(y[n], a.stop)
  /\ a.retstep => IF n = 1 THEN IsNaN(o[2]) ELSE QClose(o[2], QSub(w[2], w[1]), "1e-13", tol)
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "linspace" -> Stateless([Spaced |-> IF IsErr(o) \/ ~IsSeq(o) THEN FALSE ELSE IF a.num <= 0 THEN Len(o) = 0 ELSE Spaced(a, o)])
    [] e.op = "logspace" -> Stateless([Powers |-> IsSeq(o) /\ Len(o) = a.num /\ \A i \in 1 .. a.num : LET b == a.base  x == ToR(SpaceAt(a, i)) IN Close(o[i], $[ b**x ], "1e-11")])
    [] e.op = "product" -> Stateless([Product |-> QClose(o, QProd(a.l), "1e-13", "1e-300")])
    [] e.op = "cumsum" -> Stateless([Sums |-> QSeqClose(o, Sums(a.a, Q(0)), Tol(QMag(a.a), "1e-14"))])
    [] e.op = "mean" -> Stateless([Mean |-> QClose(o, QMean(a.data), "1e-13", Tol(QMag(a.data), "1e-15"))])
    [] e.op = "std" -> LET v == QVar(a.data) IN Stateless([Spread |-> IF IsErr(o) THEN FALSE ELSE (o \succeq "0") /\ QClose(o ** o, v, "1e-11", Tol(QMul(QMag(a.data), QMag(a.data)), "1e-26"))])
    [] e.op = "normalize" -> LET t == QTotal(a.values) IN Stateless([Shares |-> QSeqClose(o, [i \in 1 .. Len(a.values) |-> QDiv(Q(a.values[i]), t)], "1e-300")])
    [] e.op = "diff" -> Stateless([Differences |-> IF a.n < 0 THEN ErrIs(o, "ValueError") ELSE QSeqClose(o, Diffs(a.a, a.n), Tol(QMag(a.a), "1e-13"))])
    [] e.op = "measure" -> LET m == Measure(a) IN Stateless([Measured |-> IF IsStr(m) THEN ErrIs(o, "ZeroDivisionError") ELSE QClose(o, m, "1e-12", "1e-280")])
    [] e.op = "ratios" -> LET r == Eager(<<Q(1)>> \o [i \in 1 .. Len(a.actual) |-> Ratio(a.actual[i], a.calculated[i])]) IN
         Stateless([Extremes |-> IsSeq(o) /\ QClose(o[1], QMinSeq(r), "1e-14", "0") /\ QClose(o[2], QMaxSeq(r), "1e-14", "0")])
    [] e.op = "outlier" ->
         LET m == QMean(a.data)  v == QVar(a.data)  c == Q(Opt(a, "cutoff", R("3")))  lim == QMul(QMul(c, c), v)
             far(i) == LET d == QSub(Q(a.data[i]), m) IN QMul(d, d)
             sure == {i \in 1 .. Len(a.data) : QLt(QMul(lim, Q("1.000000001")), far(i))}
             edge == {i \in 1 .. Len(a.data) : QLe(QMul(lim, Q("0.999999999")), far(i)) /\ i \notin sure}
         IN Stateless([Outliers |-> IsSeq(o) /\ LET g == {o[i] + 1 : i \in 1 .. Len(o)} IN sure \subseteq g /\ g \subseteq (sure \union edge) /\ Cardinality(g) = Len(o)])
    [] e.op = "close" ->
         LET p == Leaves(a.a, a.b)
             good == IF IsStr(p) THEN FALSE ELSE \A i \in 1 .. Len(p) : IF IsStr(p[i][1]) \/ IsStr(p[i][2]) THEN p[i][1] = p[i][2] ELSE Alike(p[i][1], p[i][2], a.rtol, a.atol)
             edge == IF IsStr(p) THEN FALSE ELSE \E i \in 1 .. Len(p) : IF IsStr(p[i][1]) \/ IsStr(p[i][2]) THEN FALSE ELSE Edge(p[i][1], p[i][2], a.rtol, a.atol)
         IN Stateless([Verdict |-> edge \/ (o[1] = (IF good THEN "accepts" ELSE "refuses"))])
    [] e.op = "isclose" -> LET x == a.a  y == a.b  g == IF IsNaN(x) \/ IsNaN(y) THEN FALSE ELSE IF ~Finite(x) \/ ~Finite(y) THEN REq(x, y) ELSE LET d == DAbs(x, y) IN QEq(Q(x), Q(y)) \/ QLe(d, QMul(Q(a.rel_tol), QAbs(Q(x)))) \/ QLe(d, QMul(Q(a.rel_tol), QAbs(Q(y)))) \/ QLe(d, Q(a.abs_tol))
         IN Stateless([Verdict |-> Edge(x, y, a.rel_tol, a.abs_tol) \/ o = g])
    [] e.op = "zeros" -> Stateless([Filled |-> IF e.bad THEN ErrIs(o, "ValueError") ELSE IsSeq(o) /\ Same(o[1], e.want) /\ IsTrue(o[2])])
    [] e.op = "polylog" -> LET x == a.x IN Stateless([Dilogarithm |-> IF (x \prec "0") \/ (x \succ "1") THEN ErrIs(o, "ValueError") ELSE CloseA(o, Quad([t \in Reals |-> DiLog(t)], R("0"), x), IF x \preceq "0.99999" THEN R("1e-7") ELSE R("1e-4"), "1e-12")])
    [] e.op = "lambert" -> LET y == a.y  w == IF IsSeq(o) THEN o[1] ELSE R("0") IN
         Stateless([Inverse |-> IF ~(a.k \in {0, -1}) THEN ErrIs(o, "ValueError") ELSE IF ~IsSeq(o) THEN FALSE ELSE IF Len(o) # 2 THEN FALSE ELSE REq(o[2], "0") /\ CloseA($[ w*exp(w) ], y, "1e-9", "1e-9") /\ (IF a.k = 0 THEN w \succeq "-1" ELSE w \preceq "-1")])
    [] e.op = "truncexp" -> Stateless([Truncated |-> IsSeq(o) /\ Len(o) = Len(a.x) /\ \A i \in 1 .. Len(o) : LET x == a.x[i] IN IF x \succ "709.782712893384" THEN REq(o[i], a.trunc) ELSE Close(o[i], $[ exp(x) ], "1e-13")])
    [] e.op = "trunclog" -> Stateless([Truncated |-> IF \E i \in 1 .. Len(a.x) : a.x[i] \prec "0" THEN ErrIs(o, "ValueError") ELSE IsSeq(o) /\ Len(o) = Len(a.x) /\ \A i \in 1 .. Len(o) : LET x == a.x[i] IN IF REq(x, "0") THEN REq(o[i], a.trunc) ELSE CloseA(o[i], $[ log(x) ], "1e-13", "1e-15")])
    [] e.op = "factorial" -> Stateless([Factorial |-> IF a.n < 0 THEN ErrIs(o, "ValueError") ELSE QClose(o, QFactorial(a.n), "0", "0")])
    [] e.op = "comb" -> Stateless([Combinations |-> IF a.n < 0 \/ a.k < 0 THEN TRUE ELSE QClose(o, Choose2(a.n, a.k), "0", "0")])
    [] e.op = "hypot" -> Stateless([Hypotenuse |-> LET q == QAdd(QMul(Q(a.x), Q(a.x)), QMul(Q(a.y), Q(a.y))) IN IF IsErr(o) THEN FALSE ELSE IF ~Finite(o) THEN FALSE ELSE QLe(QAbs(QSub(QMul(Q(o), Q(o)), q)), QMul(q, Q("1e-14")))])
    [] e.op = "complex" -> LET w == o[1]  z == e.z IN
         IF IsErr(o) THEN Stateless([Inverse |-> FALSE]) ELSE IF Len(o[1]) # 2 \/ Len(o[2]) # 2 THEN Stateless([Inverse |-> FALSE]) ELSE
         LET scale == R("1") ++ CMag(z)  kind == e.kind IN
         Stateless([Inverse |-> CASE kind = "acos" -> CClose(CCos(w), z, scale ** R("1e-12"))
                                  [] kind = "atan" -> CClose(CSin(w), CMul(z, CCos(w)), (CMag(CCos(w)) ++ CMag(CSin(w))) ** scale ** R("1e-12"))
                                  [] kind = "atanh" -> CClose(CSinh(w), CMul(z, CCosh(w)), (CMag(CCosh(w)) ++ CMag(CSinh(w))) ** scale ** R("1e-12")),
                    Principal |-> CASE kind = "acos" -> (w[1] \succeq "0") /\ (w[1] \preceq "3.1415926535897936")
                                    [] kind = "atan" -> Abs(w[1]) \preceq "1.5707963267948968"
                                    [] kind = "atanh" -> Abs(w[2]) \preceq "1.5707963267948968",
                    AsBuiltIn |-> CClose(w, o[2], (R("1") ++ CMag(o[2])) ** (IF e.small THEN R("1e-6") ELSE R("1e-13")))])
    [] e.op = "sincos" -> LET x == a.x IN Stateless([Both |-> IsSeq(o) /\ CloseA(o[1], $[ sin(x) ], "0", "1e-13") /\ CloseA(o[2], $[ cos(x) ], "0", "1e-13")])
    [] e.op = "cbrt" -> Stateless([Cube |-> IF IsErr(o) THEN FALSE ELSE QClose(a.x, QMul(Q(o), QMul(Q(o), Q(o))), "1e-14", "0")])
    [] e.op = "memonew" -> [st |-> MyInit(e), bad |-> {}]
    [] e.op = "memo" ->
         LET hit == \E i \in 1 .. Len(s.memo) : REq(s.memo[i], a.x)
             i == CHOOSE j \in 1 .. Len(s.memo) : REq(s.memo[j], a.x)
             n == IF hit THEN s.calls ELSE s.calls + 1
             v == IF hit THEN s.vals[i] ELSE e.fresh
         IN [st |-> [memo |-> IF hit THEN s.memo ELSE Append(s.memo, a.x), vals |-> IF hit THEN s.vals ELSE Append(s.vals, e.fresh), calls |-> n],
             bad |-> Broken([Remembered |-> IsSeq(o) /\ REq(o[1], v[1]) /\ (a.info => Same(o[2], v[2])), CalledOnce |-> IsSeq(o) /\ o[3] = n])]
    [] e.op = "clip" -> LET n == Len(a.x) w == [i \in 1 .. n |-> LET u == IF Given(a, "low") THEN RMax(a.x[i], a.low[i]) ELSE a.x[i] IN IF Given(a, "high") THEN RMin(u, a.high[i]) ELSE u] IN
         Stateless([Clipped |-> Same(o, Eager(w))])
    [] e.op = "negated" -> Stateless([Negated |-> IsSeq(o) /\ Len(o) = Len(a.x) /\ \A i \in 1 .. Len(o) : REq(o[i], Neg(a.x[i]))])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
