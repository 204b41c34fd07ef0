---------------------------- MODULE SystemsTrace ----------------------------
EXTENDS TraceBase, Systems
MyInit(e) == [pos |-> <<>>, neg |-> <<>>, min |-> R("0"), both |-> FALSE, good |-> "None", left |-> 0]
ErrOr(r, names) == \E n \in names : ErrIs(r, n)
\* a record of evaluations: every point and every value has the size of the problem
Shaped(v, n) == IsSeq(v) /\ \A i \in 1 .. Len(v) : IsSeq(v[i]) /\ Len(v[i]) = n /\ \A j \in 1 .. n : IsNum(v[i][j])
ShapedS(v, n, m) == Shaped(v, n) /\ Len(v) = m
Recorded(z, n, g) == ~IsErr(z) /\ IsSeq(z.xs) /\ Len(z.xs) > 0 /\ ShapedS(z.xs, n, Len(z.xs)) /\ ShapedS(g, n, Len(z.xs))
\* ---- Newton: cur is the accepted point, fi the fraction tried next, k the number of accepted steps, i the next evaluation
RECURSIVE NW(_, _, _, _, _)
NW(e, cur, fi, k, i) ==
  LET a == e.a  z == e.out  X == z.xs  F == z.fs  J == z.js  n == Len(X)
      maxit == Opt(a, "maxiter", 100)  nf == IF a.v \in {"search", "armijo", "progress"} THEN Len(Factors) ELSE 1
      m == R(Factors[fi]) ** (Opt(a, "damping", R("1")))
      step == IF a.v = "dampfn" THEN m ** R("0.5") ELSE m
      final == IF Failed(a, F[cur]) THEN ErrOr(z.ret, {"UnconvergedError"})
               ELSE IsSeq(z.ret) /\ Same(z.ret[1], X[cur]) /\ z.ret[2] = k + 1
  IN IF k + 1 >= maxit \/ (k > 0 /\ Met(a, F[cur])) THEN (IF n # i - 1 THEN "StopsWhenMet" ELSE IF ~final THEN "Returns" ELSE "ok")
     ELSE IF i > n THEN (IF IsErr(z.ret) /\ ~ErrOr(z.ret, {"UnconvergedError"}) /\ a.v = "progress" THEN "ok" ELSE "Continues")
     ELSE IF ~NewtonTo(J[cur], F[cur], X[cur], X[i], step) THEN "NewtonStep"
     ELSE LET e0 == L1(F[cur])  e1 == L1(F[i])  down == e1 \prec e0  last == fi = nf IN
          IF ~down /\ ~last THEN NW(e, cur, fi + 1, k, i + 1)
          ELSE IF ~down /\ a.v = "progress" THEN (IF n = i /\ ErrIs(z.ret, "ValueError") THEN "ok" ELSE "RequiresProgress")
          ELSE IF down /\ a.v \in {"armijo", "progress"} /\ ~last THEN
               (LET r == NW(e, i, 1, k + 1, i + 1) IN IF r = "ok" THEN r ELSE IF i < n THEN (LET q == NW(e, cur, fi + 1, k, i + 1) IN IF q = "ok" THEN q ELSE r) ELSE r)
          ELSE NW(e, i, 1, k + 1, i + 1)
NewtonRun(e) ==
  LET a == e.a  z == e.out IN
  IF IsErr(z) THEN "Runs" ELSE IF ~Recorded(z, Len(a.x0), z.fs) \/ ~(IsSeq(z.js) /\ Len(z.js) = Len(z.xs) /\ \A i \in 1 .. Len(z.js) : ShapedS(z.js[i], Len(a.x0), Len(a.x0))) THEN "Runs"
  ELSE IF ~Same(z.xs[1], a.x0) THEN "StartsAtGuess"
  ELSE IF ~Given(a, "xtol") /\ Given(a, "ytol") /\ (L1(z.fs[1]) \prec a.ytol) THEN (IF Len(z.xs) = 1 /\ IsSeq(z.ret) /\ Same(z.ret[1], a.x0) THEN "ok" ELSE "AlreadySolved")
  ELSE NW(e, 1, 1, 0, 2)
\* ---- minimisation by Newton steps on the gradient
MinMet(a, g) == (Given(a, "xtol") /\ (L2(g) \prec a.xtol)) \/ (Given(a, "ytol") /\ (L1(g) \prec a.ytol))
RECURSIVE MW(_, _)
MW(e, i) ==
  LET a == e.a  z == e.out  X == z.xs  G == z.gs  H == z.hs  n == Len(X)  maxit == Opt(a, "maxiter", 100) IN
  IF i - 1 >= maxit \/ (i > 1 /\ MinMet(a, G[i])) THEN
     (IF n # i THEN "StopsWhenMet" ELSE IF Failed(a, G[i]) THEN (IF ErrIs(z.ret, "UnconvergedError") THEN "ok" ELSE "Unconverged")
      ELSE IF IsSeq(z.ret) /\ Same(z.ret[1], X[i]) /\ z.ret[2] = i - 1 THEN "ok" ELSE "Returns")
  ELSE IF i = n THEN "Continues" ELSE IF ~NewtonTo(H[i], G[i], X[i], X[i + 1], Opt(a, "damping", R("1"))) THEN "NewtonStep" ELSE MW(e, i + 1)
\* ---- fixed point; the function gives x - g(x)
RECURSIVE FW(_, _)
FW(e, i) ==   \* evaluation i was made; i >= 2
  LET a == e.a  z == e.out  X == z.xs  F == z.fs  n == Len(X)
      d == Opt(a, "damping", R("1"))
      acc == a.v # "plain" /\ (i - 1) % (IF a.v = "aitken" THEN 4 ELSE 5) = 0
      next == VSub(X[i], VMul(d, F[i]))
      ret == IsSeq(z.ret) /\ z.ret[2] = i /\ (acc \/ VClose(z.ret[1], next, "1e-14", "1e-300"))
      maxit == Opt(a, "maxiter", 100)
      stuck == IsTrue(Opt(a, "require_progress", FALSE)) /\ (L1(F[i]) \succeq L1(F[i - 1]))
      nan == a.o = "nan" /\ \E j \in 1 .. Len(F[i]) : ~Finite(F[i][j])
  IN IF nan THEN (IF n = i /\ ErrIs(z.ret, "ValueError") THEN "ok" ELSE "RefusesNaN")
     ELSE IF Met(a, F[i]) THEN (IF n # i THEN "StopsWhenMet" ELSE IF ret THEN "ok" ELSE "Returns")
     ELSE IF stuck THEN (IF n = i /\ ErrIs(z.ret, "ValueError") THEN "ok" ELSE "RequiresProgress")
     ELSE IF i >= maxit THEN (IF n # i THEN "StopsWhenSpent" ELSE IF Failed(a, F[i]) THEN (IF ErrIs(z.ret, "UnconvergedError") THEN "ok" ELSE "Unconverged") ELSE IF ret THEN "ok" ELSE "Returns")
     ELSE IF i = n THEN "Continues"
     ELSE IF ~acc /\ ~VClose(X[i + 1], next, "1e-14", "1e-300") THEN "Step"
     ELSE FW(e, i + 1)
FixedRun(e) ==
  LET a == e.a  z == e.out IN
  IF IsErr(z) THEN "Runs" ELSE IF ~Recorded(z, Len(a.x0), z.fs) THEN "Runs"
  ELSE IF ~Same(z.xs[1], a.x0) THEN "StartsAtGuess"
  ELSE IF ~Given(a, "xtol") /\ (L1(z.fs[1]) \prec a.ytol) THEN (IF Len(z.xs) = 1 /\ IsSeq(z.ret) /\ Same(z.ret[1], a.x0) THEN "ok" ELSE "AlreadySolved")
  ELSE IF Opt(a, "maxiter", 100) = 1 THEN "ok"
  ELSE IF Len(z.xs) < 2 \/ ~VClose(z.xs[2], VSub(z.xs[1], z.fs[1]), "1e-14", "1e-300") THEN "FirstStep"
  ELSE FW(e, 2)
\* ---- simplex
Pt(z, i) == [x |-> z.xs[i], f |-> z.fs[i]]
PClose(u, v) == VClose(u, v, "1e-9", $[ 1e-12 ])
RECURSIVE SW(_, _, _, _)
SW(e, sim, it, i) ==
  LET a == e.a  z == e.out  n == Len(sim) - 1  N == Len(z.xs)  c == Coef(a, R(Str(n)))
      done == IF i = N + 1 /\ IsSeq(z.ret) /\ Len(z.ret) = 3 /\ Same(z.ret[1], sim[1].x) /\ REq(z.ret[2], sim[1].f) /\ z.ret[3] = it THEN "ok" ELSE "ReturnsBest"
      rest == SubSeq(sim, 1, n)
      xr == Clip(a, Along(sim, c.rho))
  IN IF it >= Opt(a, "maxiter", 100) \/ Small(a, sim) THEN done
     ELSE IF i > N THEN "Continues"
     ELSE IF ~PClose(z.xs[i], xr) THEN "Reflects"
     ELSE LET fr == z.fs[i]  best == sim[1].f  second == sim[n].f  worst == sim[n + 1].f IN
          IF fr \prec best THEN
             IF i + 1 > N THEN "Continues"
             ELSE IF ~PClose(z.xs[i + 1], Clip(a, Along(sim, c.rho ** c.chi))) THEN "Expands"
             ELSE SW(e, Insert(rest, IF z.fs[i + 1] \prec fr THEN Pt(z, i + 1) ELSE Pt(z, i)), it + 1, i + 2)
          ELSE IF fr \prec second THEN SW(e, Insert(rest, Pt(z, i)), it + 1, i + 1)
          ELSE IF i + 1 > N THEN "Continues"
          ELSE IF ~PClose(z.xs[i + 1], Clip(a, Along(sim, IF fr \prec worst THEN c.rho ** c.psi ELSE Neg(c.psi)))) THEN "Contracts"
          ELSE SW(e, Insert(rest, Pt(z, i + 1)), it + 1, i + 2)
SimplexRun(e) ==
  LET a == e.a  z == e.out IN
  IF IsErr(z) THEN "Runs" ELSE IF ~Shaped(z.xs, Len(a.x0)) \/ ~IsSeq(z.fs) \/ Len(z.fs) # Len(z.xs) \/ ~(\A i \in 1 .. Len(z.fs) : IsNum(z.fs[i])) THEN "Runs"
  ELSE LET n == Len(a.x0)  x0 == a.x0
           ini(k) == Eager([j \in 1 .. n |-> IF j # k THEN x0[j] ELSE
                       LET v == IF REq(x0[j], "0") THEN R("0.00025") ELSE $[ 1.05*x0[j] ] IN IF Given(a, "high") THEN (IF v \succ a.high[j] THEN $[ 2*a.high[j] - v ] ELSE v) ELSE v])
       IN IF Len(z.xs) < n + 1 THEN "StartingSimplex"
          ELSE IF ~(\A k \in 0 .. n : PClose(z.xs[k + 1], IF Given(a, "initial_simplex") THEN Clip(a, a.initial_simplex[k + 1]) ELSE Clip(a, ini(k)))) THEN "StartingSimplex"
          ELSE SW(e, SortAll([k \in 1 .. n + 1 |-> Pt(z, k)]), 0, n + 2)
InBounds(e) == LET a == e.a IN \A i \in 1 .. Len(e.out.xs), j \in 1 .. Len(a.x0) : (Given(a, "low") => a.low[j] \preceq e.out.xs[i][j]) /\ (Given(a, "high") => e.out.xs[i][j] \preceq a.high[j])
Better(e) == \A i \in 1 .. Len(e.out.fs) : e.out.ret[2] \preceq e.out.fs[i]
One(r) == [st |-> 0, bad |-> IF r = "ok" THEN {} ELSE {r}]
Keep(s, cl) == [st |-> s, bad |-> Broken(cl)]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "newton" -> One(NewtonRun(e))
    [] e.op = "minimize" -> IF IsErr(o) THEN One("Runs") ELSE IF ~Recorded(o, Len(a.x0), o.gs) \/ ~(IsSeq(o.hs) /\ Len(o.hs) = Len(o.xs) /\ \A i \in 1 .. Len(o.hs) : ShapedS(o.hs[i], Len(a.x0), Len(a.x0))) THEN One("Runs") ELSE IF ~Same(o.xs[1], a.x0) THEN One("StartsAtGuess") ELSE One(MW(e, 1))
    [] e.op = "fixed" -> One(FixedRun(e))
    [] e.op = "simplex" -> LET r == SimplexRun(e) IN IF r = "Runs" THEN One(r) ELSE [st |-> 0, bad |-> One(r).bad \union Broken([InBounds |-> InBounds(e), BestKept |-> IsSeq(o.ret) => Better(e)])]
    [] e.op = "solved" -> \* whatever the path: a root, or the refusal
         Stateless([Root |-> IF IsErr(o.ret) THEN e.mayfail /\ ErrOr(o.ret, {"UnconvergedError", "ValueError"}) ELSE IsSeq(o.ret) /\ L1(o.fret) \preceq e.tol])
    [] e.op = "derivative" -> Stateless([Derivative |-> IF e.want = "refuse" THEN ErrIs(o.ret, "ValueError") ELSE CloseA(o.ret, e.want, "0", e.tol), WithinLimits |-> \A i \in 1 .. Len(o.xs) : (Given(a, "lower_limit") => a.lower_limit \preceq o.xs[i]) /\ (Given(a, "upper_limit") => o.xs[i] \preceq a.upper_limit)])
    [] e.op = "vector" -> Stateless([Derivatives |-> VClose(o, e.want, "0", e.tol)])
    [] e.op = "matrix" -> Stateless([Derivatives |-> IsSeq(o) /\ Len(o) = Len(e.want) /\ \A i \in 1 .. Len(o) : VClose(o[i], e.want[i], "0", e.tol)])
    [] e.op = "half" -> Stateless([Triangle |-> IsSeq(o) /\ Len(o) = Len(e.want) /\ \A i \in 1 .. Len(o) : VClose(o[i], SubSeq(e.want[i], 1, i), "0", e.tol)])
    [] e.op = "cube" -> Stateless([Derivatives |-> IsSeq(o) /\ Len(o) = Len(e.want) /\ \A i \in 1 .. Len(o), j \in 1 .. Len(o) : VClose(o[i][j], e.want[i][j], "0", e.tol)])
    [] e.op = "bfun" -> LET n == Len(a.x) IN
         Stateless([Evaluates |-> IsSeq(o.xs) /\ Len(o.xs) >= 1 /\ \A k \in 1 .. Len(o.xs) : VClose(o.xs[k], [i \in 1 .. n |-> OutOf(a.low[i], a.high[i], a.x[i])], "1e-12", $[ 1e-12 ]),
                    Value |-> ~e.vector => REq(o.f, o.raw),
                    Chain |-> IF ~Has(o, "j") THEN TRUE ELSE
                              LET w(i) == LET z == a.x[i] IN $[ (a.high[i] - a.low[i])*exp(-z)/((1 + exp(-z))*(1 + exp(-z))) ] IN
                              IF e.matrix THEN \A r \in 1 .. Len(o.j) : VClose(o.j[r], [i \in 1 .. n |-> w(i) ** (o.jraw[r][i])], "1e-11", "1e-13") ELSE VClose(o.j, [i \in 1 .. n |-> w(i) ** (o.jraw[i])], "1e-11", "1e-13")])
    [] e.op = "binto" -> LET n == Len(a.x) IN Stateless([Logistic |-> VClose(o[1], [i \in 1 .. n |-> Into(a.low[i], a.high[i], a.x[i])], "1e-9", "1e-9"), RoundTrip |-> VClose(o[2], a.x, "1e-9", "1e-9")])
    [] e.op = "sign" -> LET P(x, d) == LET f == Opt(a, "factor", R("0.5")) q == Opt(a, "damping", R("1"))  y == x ++ d
                                           cross == IF x \succeq "0" THEN y \prec "0" ELSE y \succ "0" IN IF cross THEN $[ x - f*x*q ] ELSE $[ x + d*q ] IN
         Stateless([SignKept |-> IF IsSeq(a.x) THEN VClose(o, [i \in 1 .. Len(a.x) |-> P(a.x[i], a.step[i])], "1e-14", "1e-300") ELSE CloseA(o, P(a.x, a.step), "1e-14", "1e-300")])
    [] e.op = "dampnew" -> [st |-> [s EXCEPT !.left = a.steps, !.min = a.amount], bad |-> {}]
    [] e.op = "damp" ->
         LET on == s.left > 0  M(i) == IF IsSeq(s.min) THEN s.min[i] ELSE s.min
             mv(x, d, i) == IF ~on THEN x ++ d ELSE IF e.kind = "damping" THEN x ++ (d ** M(i)) ELSE x ++ RMax(Neg(M(i)), RMin(M(i), d))
         IN [st |-> [s EXCEPT !.left = IF on THEN @ - 1 ELSE @],
             bad |-> Broken([Limited |-> IF IsSeq(a.x) THEN VClose(o, [i \in 1 .. Len(a.x) |-> mv(a.x[i], a.step[i], i)], "1e-14", "1e-300") ELSE CloseA(o, mv(a.x, a.step, 1), "1e-14", "1e-300")])]
    [] e.op = "basic" -> Stateless([Damped |-> VClose(o, VAdd(a.x, VMul(a.damping, a.dx)), "1e-14", "1e-300")])
    [] e.op = "oscnew" -> [st |-> [s EXCEPT !.pos = <<>>, !.neg = <<>>, !.min = a.minimum_progress, !.both = a.both_sides, !.good = Opt(a, "good_err", "None")], bad |-> {}]
    [] e.op = "osc" -> LET r == Osc(s, a.y) IN [st |-> r.st, bad |-> Broken([Detects |-> o = r.out])]
    [] e.op = "oscwrap" -> LET r == Osc(s, a.y) IN [st |-> r.st, bad |-> Broken([Detects |-> IF r.out THEN ErrIs(o, "OscillationError") ELSE Same(o, a.y)])]
    [] e.op = "bbb" ->
         LET hp == IF Given(a, "ys_pos") THEN a.ys_pos ELSE <<>>  hn == IF Given(a, "ys_neg") THEN a.ys_neg ELSE <<>>
             up == e.fhigh \succ e.flow   \* positive side is high
             P == [i \in 1 .. Len(hp) + 1 |-> IF i > Len(hp) THEN (IF up THEN e.fhigh ELSE e.flow) ELSE hp[i]]
             Q == [i \in 1 .. Len(hn) + 1 |-> IF i > Len(hn) THEN (IF up THEN e.flow ELSE e.fhigh) ELSE hn[i]]
             bp == RMinSeq(P)  bn == RMaxSeq(Q) IN
         Stateless([Best |-> IsSeq(o) /\ Len(o) = 4 /\ REq(o[3], IF up THEN bn ELSE bp) /\ REq(o[4], IF up THEN bp ELSE bn),
                    Points |-> IsSeq(o) /\ Len(o) = 4 /\ REq(e.back[1], o[3]) /\ REq(e.back[2], o[4])])
    [] e.op = "iface" ->
         Stateless([Root |-> IF IsErr(o.ret) THEN e.mayfail /\ ErrIs(o.ret, "UnconvergedError") ELSE IsSeq(o.ret) /\ VClose(o.ret, e.root, e.tol, e.tol), SameType |-> IsTrue(o.sametype),
                    CountsCalls |-> o.fval + o.jval + o.hval = o.calls /\ (o.usesjac => o.jac > 0)])
    [] e.op = "ifjac" -> Stateless([Jacobian |-> IsSeq(o) /\ Len(o) = Len(e.want) /\ \A i \in 1 .. Len(o) : VClose(o[i], e.want[i], "1e-5", "1e-5")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
