----------------------------- MODULE PolysTrace -----------------------------
EXTENDS TraceBase, Polys
MyInit(e) == [z |-> <<>>]
MAXF == "1.7976931348622732e+308"
Vals(o, n) == IF n = 0 THEN <<o>> ELSE o
CloseP(o, p, m, rt) == IsSeq(o) /\ Len(o) = Len(p) /\ \A i \in 1 .. Len(p) : CloseA(o[i], ToR(p[i]), "0", R(rt) ** ToR(m[i]))
Rel(o, p) == CloseP(o, p, PAbs(p), "3e-15")
Offs(lo, hi) == LET w == QSub(Q(hi), Q(lo)) IN Lin(QDiv(QNeg(QAdd(Q(hi), Q(lo))), w), QDiv(Q(2), w))
Ev(e) ==
  LET a == e.a  o == e.out
      past == e.ln /\ (a.T \succeq a.Tc)
      u == IF past THEN R("0") ELSE IF e.ln THEN $[ log(1 - (a.T)/(a.Tc)) ] ELSE a.x
      off == IF e.base = "poly" THEN R("0") ELSE IF Has(a, "offset") THEN a.offset ELSE R("0")
      scl == IF e.base = "poly" THEN R("1") ELSE IF Has(a, "scale") THEN a.scale ELSE R("1")
      y == QAdd(Q(off), QMul(Q(scl), Q(u)))
      m == QAdd(QAbs(Q(off)), QAbs(QMul(Q(scl), Q(u))))
      N == 1 .. e.nd + 1
      D == Eager([j \in N |-> ToR(IF e.base = "cheb" THEN QHorner(ChebPoly(e.c[j]), y) ELSE QMul(QPow(Q(scl), j - 1), QHorner(PDerN(e.c[1], j - 1), y)))])
      B == Eager([j \in N |-> ToR(IF e.base = "cheb" THEN QHorner(PAbs(ChebPoly(e.c[j])), m) ELSE QMul(QPow(QAbs(Q(scl)), j - 1), QHorner(PAbs(PDerN(e.c[1], j - 1)), m)))])
      h == IF e.ln THEN $[ (a.Tc) - (a.T) ] ELSE R("1")
      L == IF e.ln THEN ChainLn(D, h) ELSE D
      LB == IF e.ln THEN ChainLnA(B, h) ELSE B
      v == Exp(D[1])
      V == IF e.ex THEN ChainExp(L, v) ELSE L
      VB == IF e.ex THEN ChainExp(LB, v ** (R("1") ++ B[1])) ELSE LB
      z == Vals(o, e.nd)
      w == IF e.ln THEN $[ 1e-13*(1 + 0.1*(a.Tc)/h) ] ELSE R("1e-13")
  IN IF ~past /\ e.ex /\ (D[1] \succ "709.7") THEN [Overflow |-> D[1] \succ "709.8" => (ErrIs(o, "OverflowError") \/ REq(z[1], MAXF))]
     ELSE IF ~(IsSeq(z) /\ Len(z) = e.nd + 1) THEN [Results |-> FALSE]
     ELSE IF past THEN [ZeroPastCritical |-> \A j \in N : REq(z[j], "0")]
     ELSE [Value |-> CloseA(z[1], V[1], "0", w ** VB[1]),
           Derivatives |-> \A j \in N : CloseA(z[j], V[j], "0", w ** VB[j])]
\* complex numbers as <<re, im>>; distance of a set of numbers from the roots
Dist(z, w) == Sqrt($[ (z[1] - w[1])*(z[1] - w[1]) + (z[2] - w[2])*(z[2] - w[2]) ])
Matched(o, r, tol) == LET n == Len(r) IN IsSeq(o) /\ Len(o) = n /\ (\A i \in 1 .. n : IsSeq(o[i]) /\ IsNum(o[i][1]) /\ IsNum(o[i][2]))
   /\ \E f \in [1 .. n -> 1 .. n] : (\A i, j \in 1 .. n : i # j => f[i] # f[j]) /\ \A i \in 1 .. n : Dist(o[f[i]], r[i]) \preceq tol
RootSize(r) == RMaxSeq([i \in 1 .. Len(r) |-> Dist(r[i], <<"0", "0">>)])
\* piecewise: line, polynomial, line
Seg(a, t1, t2) ==   \* integral from t1 <= t2 and a bound of its terms
  LET l1 == RMin(t1, a.Tmin) l2 == RMin(t2, a.Tmin)
      m1 == Clamp(t1, a.Tmin, a.Tmax) m2 == Clamp(t2, a.Tmin, a.Tmax)
      h1 == RMax(t1, a.Tmax) h2 == RMax(t2, a.Tmax)
      mid == ToR(QSub(QHorner(a.int_coeffs, Q(m2)), QHorner(a.int_coeffs, Q(m1))))
      b == $[ abs(a.Tmin_slope)*(t1*t1 + t2*t2 + (a.Tmin)*(a.Tmin)) + abs(a.Tmax_slope)*(t1*t1 + t2*t2 + (a.Tmax)*(a.Tmax)) + (abs(a.Tmin_value) + abs(a.Tmax_value))*(t1 + t2 + (a.Tmax))] ++ ToR(QHorner(PAbs(a.int_coeffs), Q(a.Tmax)))
  IN [v |-> LineInt(a.Tmin_value, a.Tmin, a.Tmin_slope, l1, l2) ++ (mid ++ LineInt(a.Tmax_value, a.Tmax, a.Tmax_slope, h1, h2)), b |-> R("1e-13") ** b]
SegX(a, t1, t2) ==
  LET l1 == RMin(t1, a.Tmin) l2 == RMin(t2, a.Tmin)
      m1 == Clamp(t1, a.Tmin, a.Tmax) m2 == Clamp(t2, a.Tmin, a.Tmax)
      h1 == RMax(t1, a.Tmax) h2 == RMax(t2, a.Tmax)
      mid == ToR(QSub(QHorner(a.T_int_T_coeffs, Q(m2)), QHorner(a.T_int_T_coeffs, Q(m1)))) ++ $[ (a.poly_fit_log_coeff)*log(m2/m1) ]
      b == $[ (abs(a.Tmin_slope) + abs(a.Tmax_slope))*(t1 + t2 + (a.Tmax))*10 + (abs(a.Tmin_value) + abs(a.Tmax_value))*10 + abs(a.poly_fit_log_coeff)*10] ++ ToR(QHorner(PAbs(a.T_int_T_coeffs), Q(a.Tmax)))
  IN [v |-> LineIntX(a.Tmin_value, a.Tmin, a.Tmin_slope, l1, l2) ++ (mid ++ LineIntX(a.Tmax_value, a.Tmax, a.Tmax_slope, h1, h2)), b |-> R("1e-13") ** b]
Signed(S(_, _, _), a, t1, t2, o) == LET f == t1 \succ t2 s == IF f THEN S(a, t2, t1) ELSE S(a, t1, t2) IN CloseA(o, IF f THEN Neg(s.v) ELSE s.v, "0", s.b)
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "ev" -> Stateless(Ev(e))
    [] e.op = "log" ->
         LET l == Lin(Q(IF Has(a, "offset") THEN a.offset ELSE 0), Q(IF Has(a, "scale") THEN a.scale ELSE 1))
             y == QHorner(l, Q(a.x))  m == QHorner(PAbs(l), QAbs(Q(a.x)))  t == $[ (a.log_coeff)*log(a.x) ] IN
         Stateless([LogTerm |-> CloseA(o, ToR(QHorner(a.coeffs, y)) ++ t, "0", R("1e-14") ** (Abs(t) ++ ToR(QHorner(PAbs(a.coeffs), m))))])
    [] e.op = "domain" ->
         LET l == Offs(a.xmin, a.xmax)  y == QHorner(l, Q(a.x)) m == QHorner(PAbs(l), QAbs(Q(a.x))) IN
         Stateless([Mapped |-> CloseA(o, ToR(QHorner(a.coeffs, y)), "0", R("1e-14") ** ToR(QMul(Q(Len(a.coeffs)), QHorner(PAbs(a.coeffs), m))))])
    [] e.op = "offset" -> LET l == Offs(a.xmin, a.xmax) IN Stateless([MapsToUnit |-> IsSeq(o) /\ Len(o) = 2 /\ Close(o[1], ToR(l[2]), "1e-14") /\ Close(o[2], ToR(l[1]), "1e-14")])
    [] e.op = "der" -> Stateless([Derivative |-> Rel(o, Rev(PDerN(Rev(a.c), IF Has(a, "m") THEN a.m ELSE 1)))])
    [] e.op = "int" -> Stateless([Integral |-> Rel(o, PInt(a.coeffs))])
    [] e.op = "intstable" -> LET w == QDiv(QSub(Q(a.xmax), Q(a.xmin)), Q(2)) IN Stateless([Integral |-> Rel(o, PScale(w, PInt(a.coeffs)))])
    [] e.op = "overx" -> LET n == Len(a.coeffs) IN
         Stateless([IntegralOverX |-> IsSeq(o) /\ Len(o) = 2 /\ (IF n = 0 THEN o[1] = <<>> ELSE Rel(o[1], PInt(SubSeq(a.coeffs, 1, n - 1)))) /\ REq(o[2], IF n = 0 THEN "0" ELSE a.coeffs[n])])
    [] e.op = "overxstable" ->
         LET l == Offs(a.xmin, a.xmax)  p == PComp(a.coeffs, l)  m == PComp(PAbs(a.coeffs), PAbs(l))  n == Len(p) IN
         Stateless([IntegralOverX |-> IsSeq(o) /\ Len(o) = 2 /\ CloseP(o[1], PInt(SubSeq(p, 1, n - 1)), PInt(SubSeq(m, 1, n - 1)), "1e-13") /\ CloseA(o[2], ToR(p[n]), "0", R("1e-13") ** ToR(m[n]))])
    [] e.op = "unstable" ->
         LET l == Offs(a.low, a.high)  same == REq(a.low, a.high)
             p == IF same THEN QSeq(a.coeffs) ELSE PComp(a.coeffs, l)  m == IF same THEN PAbs(a.coeffs) ELSE PComp(PAbs(a.coeffs), PAbs(l)) n == Len(p)
             k == IF IsSeq(o) THEN n - Len(o) ELSE 0 IN
         Stateless([Expanded |-> IsSeq(o) /\ Len(o) <= n /\ CloseP(o, SubSeq(p, k + 1, n), SubSeq(m, k + 1, n), "1e-13") /\ \A i \in 1 .. k : Abs(ToR(p[i])) \preceq (R("1e-13") ** ToR(m[i])),
                    NoLeadingZero |-> IsSeq(o) /\ (o = <<>> \/ ~REq(o[1], "0") \/ \A i \in 1 .. Len(o) : REq(o[i], "0"))])
    [] e.op = "convert" ->
         LET l == Lin(QDiv(QAdd(Q(a.Tmin), Q(a.Tmax)), Q(2)), QDiv(QSub(Q(a.Tmax), Q(a.Tmin)), Q(2))) IN
         Stateless([Substituted |-> IsSeq(o) /\ Len(o) = Len(a.coeffs) /\ CloseP(Rev(o), PComp(Rev(a.coeffs), l), PComp(PAbs(Rev(a.coeffs)), PAbs(l)), "1e-13")])
    [] e.op = "add" -> Stateless([Sum |-> IsSeq(o) /\ CloseP(Rev(o), PAdd(Rev(a.p1), Rev(a.p2)), PAdd(PAbs(Rev(a.p1)), PAbs(Rev(a.p2))), "1e-15")])
    [] e.op = "mul" -> Stateless([Product |-> CloseP(o, PMul(QSeq(a.p1), QSeq(a.p2)), PMul(PAbs(a.p1), PAbs(a.p2)), "1e-14")])
    [] e.op = "chebder" ->
         LET m == IF Has(a, "m") THEN a.m ELSE 1  f == IF Has(a, "scl") THEN Q(a.scl) ELSE Q(1) n == Len(a.c)
             p == PDerN(ChebPoly(a.c), m) q == PScale(QPow(f, m), p)  b == PScale(QPow(QAbs(f), m), PDerN(ChebSum(PAbs(a.c), 1), m)) IN
         Stateless([Length |-> IsSeq(o) /\ Len(o) = (IF m >= n THEN 0 ELSE n - m),
                    ChebDerivative |-> m >= n \/ (IsSeq(o) /\ Len(o) = n - m /\ LET r == ChebPoly(o) t == R("1e-13") ** RSum([i \in 1 .. Len(b) |-> Abs(ToR(b[i]))]) IN \A i \in 1 .. n - m : CloseA(ToR(r[i]), ToR(q[i]), "0", t))])
    [] e.op = "chebint" ->
         LET m == IF Has(a, "m") THEN a.m ELSE 1  f == IF Has(a, "scl") THEN Q(a.scl) ELSE Q(1) x0 == IF Has(a, "lbnd") THEN Q(a.lbnd) ELSE Q(0)  n == Len(a.c)
             p == PScale(QPow(f, m), ChebPoly(a.c))
             \* the coefficients against repeated differentiation, and zero at the lower bound for each order
             r == ChebPoly(o)  d(k) == PDerN(r, k)
             t == R("1e-13") ** (R("1") ++ RSum([i \in 1 .. n |-> Abs((a.c)[i])])) ** RMax("1", ToR(QPow(QAbs(f), m))) IN
         Stateless([Length |-> IsSeq(o) /\ Len(o) = (IF n = 1 /\ REq(a.c[1], "0") THEN 1 ELSE n + m),
                    Differentiates |-> IsSeq(o) /\ (IF n = 1 /\ REq(a.c[1], "0") THEN REq(o[1], "0") ELSE Len(d(m)) = n /\ \A i \in 1 .. n : CloseA(ToR(d(m)[i]), ToR(p[i]), "0", t ** R("1e4"))),
                    ZeroAtBound |-> IsSeq(o) /\ \A k \in 0 .. m - 1 : CloseA(ToR(QHorner(d(k), x0)), "0", "0", t ** ToR(QAdd(Q(100), QPow(QAdd(Q(2), QAbs(x0)), n + m)))) ])
    [] e.op = "roots" -> Stateless([Roots |-> Matched(o, e.r, RootSize(e.r) ** R(e.tol))])
    [] e.op = "sameroots" -> Stateless([Roots |-> IsSeq(o) /\ Len(o) = Len(e.r) /\ \A i \in 1 .. Len(o) : Dist(o[i], e.r[i]) \preceq (R(e.tol) ** (R("1") ++ RootSize(e.r)))])
    [] e.op = "points" -> LET t == $[ 1e-12*(e.size) ] IN
         Stateless([ThroughPoints |-> IsSeq(o) /\ Len(o) = 3 /\ \A i \in 1 .. 3 : CloseA(ToR(QHorner(o, Q(<<a.x0, a.x1, a.x2>>[i]))), <<a.f0, a.f1, a.f2>>[i], "0", t)])
    [] e.op = "ders" -> Stateless([Taylor |-> IsSeq(o) /\ Len(o) = 3 /\ LET t == $[ 1e-14*(1 + abs(a.v) + abs((a.d1)*(a.x)) + abs((a.d2)*(a.x)*(a.x)))] IN
                            CloseA(ToR(QHorner(o, Q(a.x))), a.v, "0", t) /\ CloseA(ToR(QHorner(PDer(o), Q(a.x))), a.d1, "0", $[ 1e-14*(abs(a.d1) + abs((a.d2)*(a.x))) ]) /\ Close(o[1] ** R("2"), a.d2, "1e-15")])
    [] e.op = "lntau" ->
         LET n == Len(o)  y == Q($[ log(1 - (a.T)/(a.Tc)) ])  h == $[ (a.Tc) - (a.T) ]
             D == Eager([j \in 1 .. n |-> ToR(QHorner(PDerN(o, j - 1), y))])  L == ChainLn(D, h)  v == Exp(D[1])  V == ChainExp(L, v)
             t == $[ 1e-11*(e.size) ] IN
         Stateless([Length |-> IsSeq(o) /\ n = (IF Has(a, "der2") THEN 3 ELSE 2),
                    Value |-> Close(V[1], a.val, t), Slope |-> CloseA(V[2], a.der, t, t ** Abs(a.val // h)), Curvature |-> Has(a, "der2") => CloseA(V[3], a.der2, t, t ** (Abs(a.val // (h ** h))))])
    [] e.op = "deflate" -> Stateless([OtherRoots |-> IF e.complex THEN REq(o[1], "0") /\ REq(o[2], "0") ELSE IsSeq(o) /\ Len(o) = 2 /\ CloseA(o[1], e.hi, "0", $[ 1e-9*(e.size) ]) /\ CloseA(o[2], e.lo, "0", $[ 1e-9*(e.size) ])])
    [] e.op = "seg" -> Stateless([PiecewiseIntegral |-> Signed(Seg, a, a.T1, a.T2, o)])
    [] e.op = "segx" -> Stateless([PiecewiseIntegralOverT |-> Signed(SegX, a, a.T1, a.T2, o)])
    [] e.op = "val" -> Stateless([IntegralFromZero |-> LET g == Seg(a, R("0"), a.T) IN CloseA(o, g.v, "0", g.b)])
    [] e.op = "valx" -> \* from T = 1, where the line's own antiderivative is its slope
         Stateless([IntegralOverT |-> LET g == SegX(a, R("1"), a.T) IN CloseA(o, g.v ++ a.Tmin_slope, "0", g.b)])
    [] e.op = "fits" ->
         LET d == a.data  x == a.x  k == e.k
             F(i) == IF x \prec d[1][i] THEN (CASE k = 0 -> $[ (x - d[1][i])*d[2][i] + d[3][i] ] [] k = 1 -> d[2][i] [] OTHER -> R("0"))
                     ELSE IF x \succ d[4][i] THEN (CASE k = 0 -> $[ (x - d[4][i])*d[5][i] + d[6][i] ] [] k = 1 -> d[5][i] [] OTHER -> R("0"))
                     ELSE ToR(QHorner(d[7 + k][i], Q(x)))
             edge(i) == k = 2 /\ (REq(x, d[1][i]) \/ REq(x, d[4][i])) IN
         Stateless([Piecewise |-> IsSeq(o) /\ Len(o) = Len(d[1]) /\ \A i \in 1 .. Len(o) : edge(i) \/ CloseA(o[i], F(i), "1e-12", "1e-12")])
    [] e.op = "sign" -> Stateless([Sign |-> IF e.expect THEN IsTrue(o) ELSE IsFalse(o)])
    [] e.op = "monotonic" -> LET p == a.points n == Len(p) IN Stateless([Monotonic |-> o = ((\A i \in 1 .. n - 1 : p[i] \preceq p[i + 1]) \/ (\A i \in 1 .. n - 1 : p[i + 1] \preceq p[i]))])
    [] e.op = "increasing" -> LET p == a.points n == Len(p) IN Stateless([Increasing |-> o = (\A i \in 1 .. n - 1 : p[i] \prec p[i + 1])])
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
