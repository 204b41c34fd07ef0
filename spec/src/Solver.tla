------------------------------- MODULE Solver -------------------------------
(* One-dimensional root finders as state machines over the points at which    *)
(* they evaluate the function.  A solver run is: start, eval*, end.           *)
(* The state keeps the last points, the current sign-change bracket and the   *)
(* number of evaluations; the next point a method may evaluate, and when it   *)
(* may stop and with what, follow from the state.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Given(a, k) == IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE FALSE
Def(a, k, d) == IF Has(a, k) THEN Get(a, k) ELSE d
On(a, k) == IF Has(a, k) THEN IsTrue(Get(a, k)) ELSE FALSE
None(x) == Same(x, "None")
Bracketing == {"bisect", "ridder", "brenth"}
Bad(y) == ~Finite(y)
Zero0(y) == REq(y, "0")
Neg0(y) == y \prec "0"
Between(x, u, v) == (u \preceq x /\ x \preceq v) \/ (v \preceq x /\ x \preceq u)
Strictly(x, u, v) == (u \prec x /\ x \prec v) \/ (v \prec x /\ x \prec u)
Mid(u, v) == $[ 0.5*(u + v) ]
Clip(a, x) == LET l == IF Given(a, "low") THEN RMax(x, a.low) ELSE x IN IF Given(a, "high") THEN RMin(l, a.high) ELSE l
Clipped(a, x) == (IF Given(a, "low") THEN x \prec a.low ELSE FALSE) \/ (IF Given(a, "high") THEN x \succ a.high ELSE FALSE)
Damp(a) == Def(a, "damping", R("1"))
MaxIt(a) == IF Has(a, "maxiter") THEN a.maxiter ELSE 100
XTol(a) == Def(a, "xtol", R("1.48e-8"))
HasX(a) == ~None(XTol(a))
HasY(a) == Given(a, "ytol")
\* ---- secant: p0, p1 the last two points (p1 the newer)
SecantStep(a, p0, p1) == IF REq(p1.y, p0.y) THEN p1.x
   ELSE LET x0 == p0.x  y0 == p0.y  x1 == p1.x  y1 == p1.y  d == Damp(a) IN $[ x1 - y1*(x1 - x0)/(y1 - y0)*d ]
SecantNext(a, p0, p1) == Clip(a, SecantStep(a, p0, p1))
SecantX1(a) == IF Given(a, "x1") THEN a.x1
   ELSE LET x == a.x0 IN Clip(a, IF x \succeq "0" THEN $[ x*1.0001 + 0.0001 ] ELSE $[ x*1.0001 - 0.0001 ])
Dist(p, q) == Abs(p.x -- q.x)
SecantDone(a, p0, p1) ==
   LET xm == Dist(p0, p1) \preceq Abs((IF HasX(a) THEN XTol(a) ELSE R("0")) ** p0.x)
       ym == IF HasY(a) THEN Abs(p1.y) \prec a.ytol ELSE FALSE
       req == ~Has(a, "require_xtol") \/ On(a, "require_xtol")
       held == REq(p0.x, p1.x) /\ ((Given(a, "low") /\ REq(p0.x, Def(a, "low", R("0")))) \/ (Given(a, "high") /\ REq(p0.x, Def(a, "high", R("0")))))
   IN IF HasX(a) /\ HasY(a) THEN ym /\ (~req \/ xm) ELSE IF HasX(a) THEN xm /\ ~held ELSE ym
\* ---- Newton and Halley from the point p = [x, y, d, c]
HalleyFactor(p) == LET y == p.y  d == p.d  c == p.c IN $[ 1 - 0.5*y*c/(d*d) ]
NewtonStep(a, p) == LET y == p.y  d == p.d  g == Damp(a) IN $[ y/d*g ]
MaintainSign(x, step, g) == LET n == x ++ step IN
   IF (x \succeq "0" /\ n \prec "0") \/ (x \prec "0" /\ n \succ "0") THEN $[ x - 0.5*x*g ] ELSE $[ x + step*g ]
RawNewton(m, a, fl, p) ==
   LET h == HalleyFactor(p)  s == NewtonStep(a, p)  x == p.x IN
   IF "dfun" \in fl THEN LET y == p.y  d == p.d IN MaintainSign(x, IF "hal" \in fl \/ m = "halley" THEN $[ -(y/d/h) ] ELSE $[ -(y/d) ], Damp(a))
   ELSE IF m = "halley" THEN LET r == $[ (Damp(a))/h ] IN IF Abs($[ 1 - r ]) \succ "1.5" THEN LET y == p.y  d == p.d IN $[ x - y/d ] ELSE $[ x - s/h ]
   ELSE IF "hal" \in fl THEN (IF h \prec "0" THEN x -- s ELSE $[ x - s/h ]) ELSE x -- s
HalleySkipped(a, p) == LET h == HalleyFactor(p)  r == $[ (Damp(a))/h ] IN Abs($[ 1 - r ]) \succ "1.5"
NewtonDone(m, a, p, x) == \* x: the next point, after bounds; p: the last evaluated one
   LET ad == Abs(x -- p.x)  xt == Abs((IF HasX(a) THEN XTol(a) ELSE R("0")) ** x)
       ym == IF HasY(a) THEN Abs(p.y) \preceq a.ytol ELSE FALSE
       req == ~Has(a, "require_xtol") \/ On(a, "require_xtol")
   IN IF HasX(a) /\ HasY(a) THEN ym /\ (~req \/ m = "halley" \/ TRUE) /\ (ad \preceq (xt ++ "1e-300") \/ ~req)
      ELSE IF HasX(a) THEN ad \preceq xt ELSE ym
=============================================================================
