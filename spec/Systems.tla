------------------------------- MODULE Systems ------------------------------
(* Iterations on systems of equations and minimisation: the point each method *)
(* goes to next, and when it stops.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Eager(s) == <<>> \o s
None(x) == IF IsStr(x) THEN x = "None" ELSE FALSE
Opt(a, k, d) == IF Has(a, k) THEN (IF None(Get(a, k)) THEN d ELSE Get(a, k)) ELSE d
Given(a, k) == Has(a, k) /\ ~None(Get(a, k))
L1(v) == RSum([i \in 1 .. Len(v) |-> Abs(v[i])])
L2(v) == Sqrt(RSum([i \in 1 .. Len(v) |-> (v[i]) ** (v[i])]))
LInf(v) == RMaxSeq([i \in 1 .. Len(v) |-> Abs(v[i])])
VSub(u, v) == Eager([i \in 1 .. Len(u) |-> (u[i]) -- (v[i])])
VAdd(u, v) == Eager([i \in 1 .. Len(u) |-> (u[i]) ++ (v[i])])
VMul(k, v) == Eager([i \in 1 .. Len(v) |-> k ** (v[i])])
VClose(u, v, rt, at) == IsSeq(u) /\ Len(u) = Len(v) /\ \A i \in 1 .. Len(v) : CloseA(u[i], v[i], rt, at)
\* fractions of a full step, largest first
Factors == <<"1", "0.99", "0.98", "0.96", "0.92", "0.84", "0.68", "0.36", "0.1", "0.01", "1e-3", "1e-4", "1e-5", "1e-6", "1e-7", "1e-8", "1e-9", "1e-10">>
\* the convergence test; norm2 against xtol and the sum of magnitudes against ytol
Met(a, f) == IF Given(a, "xtol") THEN (L2(f) \prec a.xtol) /\ (~Given(a, "ytol") \/ (L1(f) \prec a.ytol))
             ELSE IF Given(a, "ytol") THEN L1(f) \prec a.ytol ELSE FALSE
Failed(a, f) == (Given(a, "xtol") /\ (L2(f) \succ a.xtol)) \/ (Given(a, "ytol") /\ (L1(f) \succ a.ytol))
\* J (y - x) = - m f
NewtonTo(J, f, x, y, m) ==
  \A r \in 1 .. Len(f) : LET d == VSub(y, x)
      s == RSum([c \in 1 .. Len(x) |-> (J[r][c]) ** (d[c])])
      b == RSum([c \in 1 .. Len(x) |-> Abs(J[r][c]) ** (Abs(d[c]) ++ (Abs(x[c]) ** R("1e-6")))])
  IN Abs(s ++ (m ** (f[r]))) \preceq (R("1e-8") ** (b ++ Abs(f[r])) ++ R("1e-14"))
\* simplex order: by value, then by coordinates
RECURSIVE LexLt(_, _, _)
LexLt(u, v, i) == IF i > Len(u) THEN FALSE ELSE IF u[i] \prec v[i] THEN TRUE ELSE IF v[i] \prec u[i] THEN FALSE ELSE LexLt(u, v, i + 1)
Before(p, q) == IF p.f \prec q.f THEN TRUE ELSE IF q.f \prec p.f THEN FALSE ELSE LexLt(p.x, q.x, 1)
RECURSIVE Insert(_, _)
Insert(s, p) == IF s = <<>> THEN <<p>> ELSE IF Before(p, Head(s)) THEN <<p>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), p)
RECURSIVE SortAll(_)
SortAll(s) == IF s = <<>> THEN <<>> ELSE Insert(SortAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Clip(a, x) == LET lo == IF Given(a, "low") THEN Eager([i \in 1 .. Len(x) |-> RMax(x[i], a.low[i])]) ELSE x
              IN IF Given(a, "high") THEN Eager([i \in 1 .. Len(x) |-> RMin(lo[i], a.high[i])]) ELSE lo
Coef(a, n) == IF IsTrue(Opt(a, "adaptive", FALSE)) THEN [rho |-> R("1"), chi |-> R("1" ++ ("2" // n)), psi |-> R("0.75" -- ("1" // ("2" ** n)))]
              ELSE [rho |-> R("1"), chi |-> R("2"), psi |-> R("0.5")]
\* centroid + t (centroid - worst)
Along(sim, t) == LET n == Len(sim) - 1  w == sim[n + 1].x
                     c == Eager([j \in 1 .. n |-> RSum([k \in 1 .. n |-> sim[k].x[j]]) // R(Str(n))])
                 IN Eager([j \in 1 .. n |-> (c[j] ++ (t ** (c[j] -- w[j])))])
Small(a, sim) == LET n == Len(sim) - 1  xt == Opt(a, "xtol", R("1e-4"))  ft == Opt(a, "ftol", R("1e-4")) IN
   (\A i \in 2 .. n + 1, j \in 1 .. n : Abs((sim[i].x[j]) -- (sim[1].x[j])) \preceq xt) /\ (\A i \in 2 .. n + 1 : Abs((sim[i].f) -- (sim[1].f)) \preceq ft)
\* logistic change of variables onto an interval
Into(lo, hi, x) == (Neg(Ln((hi -- x) // (x -- lo))))
OutOf(lo, hi, z) == (lo ++ ((hi -- lo) // ("1" ++ Exp(Neg(z)))))
\* detection of stagnating oscillation: history on either side
Gain(h) == (Abs((h[2] -- h[1]) // h[2]))
Last2(s) == <<s[Len(s) - 1], s[Len(s)]>>
Osc(st, y) ==
  IF REq(y, "0") THEN [st |-> st, out |-> FALSE]
  ELSE LET q == IF y \prec "0" THEN [st EXCEPT !.neg = Append(@, y)] ELSE [st EXCEPT !.pos = Append(@, y)] IN
       IF Len(q.pos) < 2 \/ Len(q.neg) < 2 THEN [st |-> q, out |-> FALSE]
       ELSE LET sp == Gain(Last2(q.pos)) \prec q.min  sn == Gain(Last2(q.neg)) \prec q.min
                slow == IF q.both THEN sp /\ sn ELSE sp \/ sn
                best == RMin(Abs(q.pos[Len(q.pos)]), Abs(q.neg[Len(q.neg)]))
            IN [st |-> q, out |-> slow /\ ~(IsNum(q.good) /\ (best \prec q.good))]
=============================================================================
