-------------------------- MODULE InterpolateTrace --------------------------
EXTENDS TraceBase, Interpolate
MyInit(e) == 0
Sup(a, t) == ToR(QMul(Q(t), QAdd(Q("1e-300"), a)))
\* ---- adaptive quadrature: evaluations i .. i + 20 are the rule on [a, b]
RECURSIVE QA(_, _, _, _, _, _, _)
QA(z, a, b, i, depth, er, ea) ==
  LET X == z.xs  F == z.fs  n == Len(X)  half == $[ 0.5*(b - a) ]
      bad(s) == [why |-> s, n |-> i, area |-> R("0"), err |-> R("0"), cut |-> FALSE]
      size == Abs(a) ++ Abs(b)
      here(j, u, v) == \A k \in 1 .. 21 : CloseA(X[j + k - 1], RuleAt(u, v, k), "1e-13", size ** R("1e-14"))
  IN IF i + 20 > n THEN bad("Continues") ELSE IF ~here(i, a, b) THEN bad("Points")
     ELSE LET area == half ** RSum([k \in 1 .. 21 |-> R(GKW[k]) ** (F[i + k - 1])])
              gl == half ** RSum([k \in 1 .. 10 |-> R(GLW[k]) ** (F[i + 2*k - 1])])
              err == area -- gl
              fuzz == R("1e-14") ** Abs(half) ** RSum([k \in 1 .. 21 |-> Abs(F[i + k - 1])])
              lo == RMax(R("0"), Abs(err) -- fuzz)  hi == Abs(err) ++ fuzz
              sure == (hi \prec ea) \/ (hi \prec (er ** Abs(area))) \/ depth > 6 \/ \A k \in 1 .. 21 : REq(F[i + k - 1], "0")
              never == (lo \succeq ea) /\ (lo \succ (er ** Abs(area))) /\ depth <= 6
              mid == $[ a + (b - a)*0.5 ]
              split == IF sure THEN FALSE ELSE IF never THEN TRUE ELSE IF i + 41 > n THEN FALSE ELSE here(i + 21, a, mid)
          IN IF ~split THEN [why |-> "ok", n |-> i + 21, area |-> area, err |-> err, cut |-> depth > 6]
             ELSE LET l == QA(z, a, mid, i + 21, depth + 1, er, ea ** R("0.5")) IN
                  IF l.why # "ok" THEN l ELSE
                  LET r == QA(z, mid, b, l.n, depth + 1, er, ea ** R("0.5")) IN
                  IF r.why # "ok" THEN r ELSE [why |-> "ok", n |-> r.n, area |-> l.area ++ r.area, err |-> Abs(l.err) ++ Abs(r.err), cut |-> l.cut \/ r.cut]
Exact(a) == CASE a.f = "poly" \/ a.f = "args" -> ToR(PArea(a.c, a.a, a.b))
              [] a.f = "exp" -> $[ (exp((a.c[1])*(a.b)) - exp((a.c[1])*(a.a)))/(a.c[1]) ]
              [] a.f = "peak" -> $[ (atan(5*(a.b)) - atan(5*(a.a)))/5 ]
              [] OTHER -> R("0")
Known(a) == a.f \in {"poly", "args", "exp", "peak", "zero"}
Tol(a) == <<Opt(a, "epsrel", R("1.49e-8")), Opt(a, "epsabs", R("1.49e-8"))>>
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "search" -> LET n == IF Given(a, "size") THEN a.size ELSE Len(a.arr) IN
         Stateless([Position |-> o = IF a.key \succ a.arr[n] THEN n ELSE CountLe(a.key, SubSeq(a.arr, 1, n), n) - 1])
    [] e.op = "interp" -> Stateless([OnLine |-> Near(o, Linear1(a.x, a.dx, a.dy, Opt(a, "left", "None"), Opt(a, "right", "None"), IsTrue(Opt(a, "extrapolate", FALSE))), "4e-15")])
    [] e.op = "two" -> Stateless([OnSurface |-> LET w == Linear2(a.x, a.y, a.xs, a.ys, a.vals) IN QClose(o, w[1], "0", Sup(w[2], "1e-14"))])
    [] e.op = "tck2" -> LET x == Held(a.x, a.xs[1], a.xs[Len(a.xs)])  y == Held(a.y, a.ys[1], a.ys[Len(a.ys)])  w == Linear2(x, y, a.xs, a.ys, a.z) IN
         Stateless([OnSurface |-> IsSeq(o) /\ \A i \in 1 .. Len(o) : QClose(o[i], w[1], "0", Sup(w[2], "1e-14"))])
    [] e.op = "badk" -> Stateless([Refused |-> ErrIs(o, "ValueError")])
    [] e.op = "splev" ->
         LET t == a.t  k == a.k  out == (a.x \prec EndLo(t, k)) \/ (a.x \succ EndHi(t, k))
             x == IF a.ext = 3 THEN Held(a.x, EndLo(t, k), EndHi(t, k)) ELSE a.x
             tol == BigC(a.c) ** R("1e-12") ** (IF out /\ a.ext = 0 THEN e.amp ELSE R("1"))
         IN Stateless([Spline |-> IF out /\ a.ext = 2 THEN ErrIs(o, "ValueError") ELSE IF out /\ a.ext = 1 THEN IsNum(o) /\ REq(o, "0") ELSE QClose(o, SplineQ(t, a.c, k, x), "1e-12", tol)])
    [] e.op = "bisplev" -> Stateless([Surface |-> IsSeq(o) /\ \A i \in 1 .. Len(o) : QClose(o[i], Spline2Q(a.tx, a.ty, a.c, a.kx, a.ky, a.x, a.y), "1e-12", BigC(a.c) ** R("1e-13"))])
    [] e.op = "tck" -> Stateless([SameSpline |-> IF Len(a.tck) \in {3, 5} THEN IsSeq(o) /\ IsTrue(o[1]) /\ Same(o[2], a.tck) ELSE ErrIs(o, "NotImplementedError")])
    [] e.op = "trap" ->
         Stateless([Trapezoids |-> IF e.want = "refuse" THEN ErrIs(o, "ValueError") ELSE
           LET h == IF Given(a, "x") THEN Eager([i \in 1 .. Len(a.y) - 1 |-> QSub(Q(a.x[i + 1]), Q(a.x[i]))]) ELSE Eager([i \in 1 .. Len(a.y) - 1 |-> Opt(a, "dx", R("1"))])
               w == Trap(a.y, h, 1, Q(0))  big == RSum([i \in 1 .. Len(a.y) |-> Abs(a.y[i])]) ** RSum([i \in 1 .. Len(h) |-> Abs(ToR(Q(h[i])))]) ** R("1e-14")
           IN IsSeq(o) /\ Len(o) = Len(w) /\ \A i \in 1 .. Len(w) : QClose(o[i], w[i], "1e-13", big)])
    [] e.op = "adaptive" ->
         IF IsErr(o) THEN Stateless([Integrates |-> FALSE])
         ELSE IF ~(IsSeq(o.ret) /\ Len(o.ret) = 2 /\ IsSeq(o.xs) /\ IsSeq(o.fs) /\ Len(o.fs) = Len(o.xs)) THEN Stateless([Integrates |-> FALSE])
         ELSE LET t == Tol(a)  r == QA(o, a.a, a.b, 1, 0, t[1], t[2]) IN
         Stateless([Bisection |-> r.why = "ok" /\ r.n = Len(o.xs) + 1,
                    Area |-> r.why = "ok" => CloseA(o.ret[1], r.area, "1e-12", e.big ** R("1e-14")) /\ CloseA(o.ret[2], r.err, "1e-9", e.big ** R("1e-14")),
                    Integral |-> (Known(a) /\ r.why = "ok" /\ ~r.cut) => CloseA(o.ret[1], Exact(a), t[1] ** R("10"), (t[2] ** R("10")) ++ (e.big ** R("1e-14")))])
    [] e.op = "rule" -> LET w == ToR(PArea(a.c, a.a, a.b)) IN
         Stateless([Degree31 |-> IsSeq(o) /\ CloseA(o[1], w, "1e-13", e.big ** R("1e-14")), Degree19 |-> IsSeq(o) /\ (Len(a.c) <= 20 => Abs(o[2]) \preceq (e.big ** R("1e-14")))])
    [] e.op = "lazy" -> Stateless([Integral |-> IsSeq(o) /\ CloseA(o[1], Exact(a), "1e-8", (R("2e-8")) ++ (e.big ** R("1e-13")))])
    [] e.op = "many" -> Stateless([Integral |-> IsSeq(o) /\ QClose(o[1], DblArea(a.c, a.lo, a.hi, a.a, a.b), "1e-7", e.big ** R("1e-12"))])
    [] e.op = "box3" -> LET m(r, n) == PArea(<<R("1")>> \o [i \in 1 .. n |-> R("0")], r[1], r[2]) IN
         Stateless([Integral |-> IsSeq(o) /\ QClose(o[1], QSum([t \in 1 .. Len(a.terms) |-> LET q == a.terms[t] IN QMul(Q(q[1]), QMul(m(a.x, q[2]), QMul(m(a.y, q[3]), m(a.z, q[4]))))]), "1e-7", e.big ** R("1e-12"))])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
