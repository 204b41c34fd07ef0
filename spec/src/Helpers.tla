------------------------------- MODULE Helpers ------------------------------
(* Sequences, statistics, error measures, comparisons and special functions.  *)
EXTENDS Polys
None(x) == IF IsStr(x) THEN x = "None" ELSE FALSE
Opt(a, k, d) == IF Has(a, k) THEN (IF None(Get(a, k)) THEN d ELSE Get(a, k)) ELSE d
Given(a, k) == Has(a, k) /\ ~None(Get(a, k))
QMag(s) == QSum([i \in 1 .. Len(s) |-> QAbs(Q(s[i]))])
QTotal(s) == QSum([i \in 1 .. Len(s) |-> Q(s[i])])
QMean(s) == QDiv(QTotal(s), Q(Len(s)))
QVar(s) == LET m == Eager(<<QMean(s)>>)[1] IN QDiv(QSum([i \in 1 .. Len(s) |-> LET d == QSub(Q(s[i]), m) IN QMul(d, d)]), Q(Len(s)))
RECURSIVE QProd(_)
QProd(s) == IF s = <<>> THEN Q(1) ELSE QMul(Q(Head(s)), QProd(Tail(s)))
RECURSIVE Sums(_, _)
Sums(s, acc) == IF s = <<>> THEN <<>> ELSE LET t == Eager(<<QAdd(acc, Q(Head(s)))>>) IN t \o Sums(Tail(s), t[1])
RECURSIVE Diffs(_, _)
Diffs(s, n) == IF n = 0 \/ s = <<>> THEN QSeq(s) ELSE LET d == Diffs(s, n - 1) IN Eager([i \in 1 .. Len(d) - 1 |-> QSub(d[i + 1], d[i])])
\* sizes of a difference: how far one is from the other, plain and relative
DAbs(d, c) == QAbs(QSub(Q(d), Q(c)))
DRel(d, c) == QAbs(QDiv(QSub(Q(d), Q(c)), Q(d)))
QMaxSeq(s) == CHOOSE m \in {s[i] : i \in 1 .. Len(s)} : \A i \in 1 .. Len(s) : QLe(s[i], m)
QMinSeq(s) == CHOOSE m \in {s[i] : i \in 1 .. Len(s)} : \A i \in 1 .. Len(s) : QLe(m, s[i])
QMin2(x, y) == IF QLe(x, y) THEN x ELSE y
Zero0(x) == QEq(Q(x), Q(0))
\* an error measure of two sequences; "None" where it has no value
Measure(a) ==
  LET d == a.data  c == a.calc  n == Len(d)  any == \E i \in 1 .. n : Zero0(d[i])
      rel(cap, mean) == Eager([i \in 1 .. n |-> IF Zero0(d[i]) THEN (IF Zero0(c[i]) THEN Q(0) ELSE cap) ELSE IF mean THEN DRel(d[i], c[i]) ELSE QMin2(cap, DRel(d[i], c[i]))])
      sq(s) == Eager([i \in 1 .. Len(s) |-> QMul(s[i], s[i])])
      ab == Eager([i \in 1 .. n |-> DAbs(d[i], c[i])])
      re == IF any THEN <<>> ELSE Eager([i \in 1 .. n |-> DRel(d[i], c[i])])
  IN CASE a.f = "max_abs_error" -> QMaxSeq(ab)
       [] a.f = "max_squared_error" -> QMaxSeq(sq(ab))
       [] a.f = "mean_abs_error" -> QDiv(QSum(ab), Q(n))
       [] a.f = "mean_squared_error" -> QDiv(QSum(sq(ab)), Q(n))
       [] a.f = "max_abs_rel_error" -> QMaxSeq(rel(Q(Opt(a, "max_val", R("1000"))), FALSE))
       [] a.f = "mean_abs_rel_error" -> QDiv(QSum(rel(Q(1), TRUE)), Q(n))
       [] a.f = "max_squared_rel_error" -> IF any THEN "None" ELSE QMaxSeq(sq(re))
       [] a.f = "mean_squared_rel_error" -> IF any THEN "None" ELSE QDiv(QSum(sq(re)), Q(n))
\* lowest and highest ratio, with 1 among them
Ratio(x, c) == IF Zero0(x) THEN (IF Zero0(c) THEN Q(1) ELSE Q(10)) ELSE QDiv(Q(c), Q(x))
\* how two numbers compare: with tolerances relative to either and absolute, or added
Alike(x, y, rt, at) ==
  IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(x) /\ IsNaN(y)
  ELSE IF ~Finite(x) \/ ~Finite(y) THEN REq(x, y)
  ELSE LET d == DAbs(x, y)  m(u) == QMul(Q(rt), QAbs(Q(u))) IN QEq(Q(x), Q(y)) \/ QLe(d, m(x)) \/ QLe(d, m(y)) \/ QLe(d, Q(at)) \/ QLe(d, QAdd(Q(at), m(y)))
\* decided by rounding: too near a tolerance to say
Edge(x, y, rt, at) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE ELSE IF ~Finite(x) \/ ~Finite(y) THEN FALSE
  ELSE LET d == DAbs(x, y)  near(t) == QLe(QAbs(QSub(d, t)), QMul(Q("1e-12"), t)) /\ ~QEq(t, Q(0)) IN near(QMul(Q(rt), QAbs(Q(x)))) \/ near(QMul(Q(rt), QAbs(Q(y)))) \/ near(Q(at)) \/ near(QAdd(Q(at), QMul(Q(rt), QAbs(Q(y)))))
RECURSIVE Leaves(_, _)
\* pairs of numbers at the same places of two nests of depth d, or "None" if their shapes differ
Joined(s) == IF \E i \in 1 .. Len(s) : IsStr(s[i]) THEN "None" ELSE Eager([i \in 1 .. Len(s) |-> s[i]])
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Leaves(x, y) == IF IsSeq(x) /\ IsSeq(y) THEN (IF Len(x) # Len(y) THEN "None" ELSE LET j == Joined([i \in 1 .. Len(x) |-> Leaves(x[i], y[i])]) IN IF IsStr(j) THEN "None" ELSE Flat(j))
                ELSE IF IsSeq(x) \/ IsSeq(y) THEN "None" ELSE <<<<x, y>>>>
RECURSIVE Fact(_)
Fact(n) == IF n < 2 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE QFactorial(_)
QFactorial(n) == IF n < 2 THEN Q(1) ELSE QMul(Q(n), QFactorial(n - 1))
Choose2(n, k) == IF k < 0 \/ k > n THEN Q(0) ELSE QDiv(QFactorial(n), QMul(QFactorial(k), QFactorial(n - k)))
\* the dilogarithm's integrand
DiLog(t) == IF t \preceq "1e-9" THEN $[ 1 + t/2 ] ELSE $[ -log(1 - t)/t ]
\* complex numbers as <<re, im>>
CMul(u, v) == <<$[ (u[1])*(v[1]) - (u[2])*(v[2]) ], $[ (u[1])*(v[2]) + (u[2])*(v[1]) ]>>
CClose(u, v, tol) == CloseA(u[1], v[1], "0", tol) /\ CloseA(u[2], v[2], "0", tol)
CMag(u) == $[ sqrt((u[1])*(u[1]) + (u[2])*(u[2])) ]
CCos(u) == LET x == u[1] IN <<(R("1") ** $[ cos(x) ]) ** Cosh(u[2]), Neg($[ sin(x) ] ** Sinh(u[2]))>>
CSin(u) == LET x == u[1] IN <<$[ sin(x) ] ** Cosh(u[2]), $[ cos(x) ] ** Sinh(u[2])>>
CCosh(u) == LET y == u[2] IN <<Cosh(u[1]) ** $[ cos(y) ], Sinh(u[1]) ** $[ sin(y) ]>>
CSinh(u) == LET y == u[2] IN <<Sinh(u[1]) ** $[ cos(y) ], Cosh(u[1]) ** $[ sin(y) ]>>
=============================================================================
