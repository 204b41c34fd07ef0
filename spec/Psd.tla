--------------------------------- MODULE Psd ---------------------------------
(* Particle size distributions. A continuous distribution is a density of some *)
(* order on (0, inf), possibly cut to [lo, hi]; in another basis n it is       *)
(* weighted with d^(n - order) and normalised again.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, PsdData
Inf == R("1e300")
Phi(x) == R("0.5" ** ("1" ++ Erf(x // Sqrt("2"))))
\* density and distribution of the bare law; p = [kind, a, b]
Pdf0(p, d) == IF d \preceq "0" THEN R("0") ELSE
  CASE p.kind = "lognormal" -> (Exp("0" -- ("0.5" ** ((Ln(d // p.a) // p.b) ^^ "2"))) // ((d ** p.b) ** Sqrt("2" ** "3.141592653589793")))
    [] p.kind = "ggs" -> IF d \succ p.a THEN R("0") ELSE ((p.b // d) ** ((d // p.a) ^^ p.b))
    [] p.kind = "rr" -> (((p.a ** p.b) ** (d ^^ (p.b -- "1"))) ** Exp("0" -- (p.a ** (d ^^ p.b))))
Cdf0(p, d) == IF d \preceq "0" THEN R("0") ELSE
  CASE p.kind = "lognormal" -> Phi((Ln(d // p.a) // p.b))
    [] p.kind = "ggs" -> IF d \succ p.a THEN R("1") ELSE ((d // p.a) ^^ p.b)
    [] p.kind = "rr" -> R("1" -- Exp("0" -- (p.a ** (d ^^ p.b))))
\* integral of t^n times the density from x to y
Moment(p, n, x, y) ==
  CASE p.kind = "lognormal" -> LET F(d) == IF d \preceq "0" THEN R("0") ELSE Phi(((Ln(d // p.a) -- (n ** (p.b ^^ "2"))) // p.b))
                                   S(d) == IF d \preceq "0" THEN R("1") ELSE Phi((((n ** (p.b ^^ "2")) -- Ln(d // p.a)) // p.b))
                               \* the difference taken on the side where it does not cancel
                               IN ((p.a ^^ n) ** Exp("0.5" ** ((n ** p.b) ^^ "2"))) ** (IF F(x) \prec "0.5" THEN F(y) -- F(x) ELSE S(x) -- S(y))
    [] p.kind = "ggs" -> LET c(d) == RMin(d, p.a)  e == (n ++ p.b)  g(d) == IF d \preceq "0" THEN R("0") ELSE ((c(d) // p.a) ^^ e) IN (((p.b // e) ** (p.a ^^ n)) ** (g(y) -- g(x)))
    [] p.kind = "rr" -> \* with w = (k t^m)^e, e = 1 + n/m > 0, the integral of exp(-w^(1/e)) dw/e
                        LET e == R("1" ++ (n // p.b))
                            w(d) == IF d \preceq "0" THEN R("0") ELSE (RMin("600", p.a ** (d ^^ p.b)) ^^ e)
                            f == [t \in Reals |-> (Exp("0" -- (t ^^ ("1" // e))))]
                            c == <<R("0"), R("0.05" ^^ e), R("1" ^^ e), R("5" ^^ e), R("30" ^^ e), R("600" ^^ e)>>
                            Q(i, x1, y1) == LET l == RMax(c[i], x1)  h == RMin(c[i + 1], y1) IN IF l \prec h THEN Quad(f, l, h) ELSE R("0")
                        IN ((p.a ^^ ("0" -- (n // p.b))) // e) ** RSum([i \in 1 .. 5 |-> Q(i, w(x), w(y))])
Cut(p) == [lo |-> IF Same(p.lo, "None") THEN R("0") ELSE p.lo, hi |-> IF Same(p.hi, "None") THEN Inf ELSE p.hi]
Power(p, n) == IF Same(n, "None") THEN R("0") ELSE n -- p.order
Pdf(p, d, n) == LET c == Cut(p)  k == Power(p, n) IN IF d \prec c.lo \/ d \succ c.hi THEN R("0") ELSE IF Pdf0(p, d) \preceq "0" THEN R("0") ELSE (((d ^^ k) ** Pdf0(p, d)) // Moment(p, k, c.lo, c.hi))
Cdf(p, d, n) == LET c == Cut(p)  k == Power(p, n) IN IF d \preceq c.lo THEN R("0") ELSE IF d \succeq c.hi THEN R("1") ELSE (Moment(p, k, c.lo, d) // Moment(p, k, c.lo, c.hi))
MeanPQ(p, P, Q) == LET c == Cut(p)  M(k) == Moment(p, k -- p.order, c.lo, c.hi) IN ((M(P) // M(Q)) ^^ ("1" // (P -- Q)))
Mean(p, P, Q) == IF REq(P, Q) THEN MeanPQ(p, (P ++ "1e-4"), (Q -- "1e-4")) ELSE MeanPQ(p, P, Q)
\* spacing of diameters
Frac(i, n) == R(i - 1) // R(n - 1)
LinSpace(a, b, n) == [i \in 1 .. n |-> a ++ ((b -- a) ** Frac(i, n))]
LogSpace(a, b, n) == [i \in 1 .. n |-> a ** ((b // a) ^^ Frac(i, n))]
RenardUp(a, r, n) == [i \in 1 .. n |-> a ** (R("10") ^^ (R(i - 1) // r))]
RenardDown(b, r, n) == [i \in 1 .. n |-> b // (R("10") ^^ (R(n - i) // r))]
Series == [ISO |-> U_ISO, R20 |-> U_R20, R20_3 |-> U_R20_3, R40_3 |-> U_R40_3, R10 |-> U_R10, ASTM |-> U_ASTM]
Open(s) == [i \in 1 .. Len(Series[s]) |-> R(Series[s][i]) // R("1000")]
Sieves(s, a, b) == LET o == Open(s)  r == [i \in 1 .. Len(o) |-> o[Len(o) + 1 - i]] IN SelectSeq(r, LAMBDA x : x \succeq a /\ x \preceq b)
\* discrete distributions: q = [ds, f, order, cdf]
Classes(q) == Len(q.ds) = Len(q.f) + 1
DPow(q, i, r) == LET a == q.ds[i] IN IF ~Classes(q) THEN (a ^^ r) ELSE LET b == q.ds[i+1] IN
                 IF REq(r, "-1") THEN (Ln(b // a) // (b -- a)) ELSE (((b ^^ (r ++ "1")) -- (a ^^ (r ++ "1"))) // ((b -- a) ** (r ++ "1")))
Norm(s) == LET t == RSum(s) IN [i \in 1 .. Len(s) |-> s[i] // t]
Given(q) == IF q.cdf THEN [i \in 1 .. Len(q.f) |-> IF i = 1 THEN IF Classes(q) THEN q.f[1] ELSE R("0") ELSE q.f[i] -- q.f[i-1]] ELSE Norm(q.f)
Volume(q) == LET g == Given(q) IN IF REq(q.order, "3") THEN g ELSE Norm([i \in 1 .. Len(g) |-> g[i] ** DPow(q, i, R("3") -- q.order)])
InBasis(q, k) == LET v == Volume(q) IN Norm([i \in 1 .. Len(v) |-> v[i] // DPow(q, i, R("3") -- k)])
DMean(q, P, Q) == LET n == InBasis(q, R("0"))  N == Len(n)  M(k) == RSum([i \in 1 .. N |-> n[i] ** DPow(q, i, k)])
                  IN IF REq(P, Q) THEN Exp(RSum([i \in 1 .. N |-> Ln(DPow(q, i, R("1"))) ** DPow(q, i, P) ** n[i]]) // M(Q)) ELSE ((M(P) // M(Q)) ^^ ("1" // (P -- Q)))
DVssa(q) == LET v == Volume(q) IN R("6") ** RSum([i \in 1 .. Len(v) |-> v[i] // DPow(q, i, R("1"))])
\* monotone cubic (Fritsch-Butland) interpolant of the cumulative volume
Knots(q) == IF Classes(q) \/ REq(q.ds[1], "0") THEN q.ds ELSE <<R("0")>> \o q.ds
Heights(q) == LET c == CumSum(Volume(q)) IN IF Classes(q) \/ ~REq(q.ds[1], "0") THEN c ELSE SubSeq(c, 2, Len(c))
Sgn(x) == IF x \succ "0" THEN 1 ELSE IF x \prec "0" THEN -1 ELSE 0
EndSlope(h0, h1, d0, d1) == LET m == ((((("2" ** h0) ++ h1) ** d0) -- (h0 ** d1)) // (h0 ++ h1)) IN IF Sgn(m) # Sgn(d0) THEN R("0") ELSE IF Sgn(d0) # Sgn(d1) /\ Abs(m) \succ R("3" ** Abs(d0)) THEN R("3" ** d0) ELSE m
Slopes(x, y) == LET n == Len(x)  h == [i \in 1 .. n - 1 |-> x[i+1] -- x[i]]  e == [i \in 1 .. n - 1 |-> (y[i+1] -- y[i]) // h[i]]
  IN IF n = 2 THEN <<e[1], e[1]>> ELSE
     [i \in 1 .. n |-> IF i = 1 THEN EndSlope(h[1], h[2], e[1], e[2]) ELSE IF i = n THEN EndSlope(h[n-1], h[n-2], e[n-1], e[n-2])
                       ELSE IF Sgn(e[i-1]) * Sgn(e[i]) <= 0 THEN R("0") ELSE LET a == h[i-1]  b == h[i]  u == e[i-1]  v == e[i]  w1 == (("2" ** b) ++ a)  w2 == (b ++ ("2" ** a)) IN ((w1 ++ w2) // ((w1 // u) ++ (w2 // v)))]
Cell(x, d) == LET S == {i \in 1 .. Len(x) - 1 : x[i] \preceq d} IN CHOOSE i \in S : \A j \in S : j <= i
Pchip(x, y, d) == LET m == Slopes(x, y)  i == Cell(x, d)  h == x[i+1] -- x[i]  t == (d -- x[i]) // h  y0 == y[i]  y1 == y[i+1]  m0 == m[i]  m1 == m[i+1]
  IN (((((("1" ++ ("2" ** t)) ** (("1" -- t) ^^ "2")) ** y0) ++ (((t ** (("1" -- t) ^^ "2")) ** h) ** m0)) ++ (((t ** t) ** ("3" -- ("2" ** t))) ** y1)) ++ ((((t ** t) ** (t -- "1")) ** h) ** m1))
PchipD(x, y, d) == LET m == Slopes(x, y)  i == Cell(x, d)  h == x[i+1] -- x[i]  t == (d -- x[i]) // h  y0 == y[i]  y1 == y[i+1]  m0 == m[i]  m1 == m[i+1]
  IN (((((("6" ** t) ** (t -- "1")) ** (y0 -- y1)) // h) ++ ((("1" -- t) ** ("1" -- ("3" ** t))) ** m0)) ++ ((t ** (("3" ** t) -- "2")) ** m1))
DCdf(q, d) == LET x == Knots(q) IN IF d \preceq x[1] THEN R("0") ELSE IF d \succ x[Len(x)] THEN R("1") ELSE Pchip(x, Heights(q), d)
DPdf(q, d) == LET x == Knots(q) IN IF d \prec x[1] \/ d \succ x[Len(x)] THEN R("0") ELSE RMax(R("0"), PchipD(x, Heights(q), d))
=============================================================================
