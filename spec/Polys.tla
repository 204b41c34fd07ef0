-------------------------------- MODULE Polys -------------------------------
(* Polynomials are sequences of coefficients, highest power first, over the   *)
(* exact rationals; Chebyshev series are sequences, order 0 first.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, Q
Eager(s) == <<>> \o s   \* evaluate the elements once
QSeq(c) == Eager([i \in 1 .. Len(c) |-> Q(c[i])])
Rev(s) == Eager([i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]])
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE Eager([k \in 1 .. Len(p) + Len(q) - 1 |-> QSum([i \in 1 .. Len(p) |-> IF k + 1 - i \in 1 .. Len(q) THEN QMul(p[i], q[k + 1 - i]) ELSE Q(0)])])
PAdd(p, q) == LET n == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
                  At(s, i) == LET j == i - (n - Len(s)) IN IF j >= 1 THEN Q(s[j]) ELSE Q(0)
              IN Eager([i \in 1 .. n |-> QAdd(At(p, i), At(q, i))])
PScale(f, p) == Eager([i \in 1 .. Len(p) |-> QMul(f, p[i])])
PDer(p) == Eager([i \in 1 .. (IF Len(p) = 0 THEN 0 ELSE Len(p) - 1) |-> QMul(Q(p[i]), Q(Len(p) - i))])
RECURSIVE PDerN(_, _)
PDerN(p, m) == IF m = 0 THEN QSeq(p) ELSE PDerN(PDer(p), m - 1)
PInt(p) == Eager([i \in 1 .. Len(p) + 1 |-> IF i > Len(p) THEN Q(0) ELSE QDiv(Q(p[i]), Q(Len(p) + 1 - i))])
PAbs(p) == Eager([i \in 1 .. Len(p) |-> QAbs(Q(p[i]))])
PSubE(p, q) == PAdd(p, PScale(Q(-1), q))
PEq(p, q) == LET d == PAdd(p, PScale(Q(-1), q)) IN \A i \in 1 .. Len(d) : QEq(d[i], Q(0))
\* p(off + scl x) as a polynomial in x
RECURSIVE PComp(_, _)
PComp(p, l) == IF Len(p) = 0 THEN <<>> ELSE IF Len(p) = 1 THEN <<Q(p[1])>>
               ELSE PAdd(PMul(PComp(SubSeq(p, 1, Len(p) - 1), l), l), <<Q(p[Len(p)])>>)
Lin(off, scl) == <<scl, off>>
RECURSIVE FromRoots(_)
FromRoots(r) == IF r = <<>> THEN <<Q(1)>> ELSE PMul(FromRoots(Tail(r)), <<Q(1), QNeg(Q(Head(r)))>>)
RECURSIVE Cheb(_)
Cheb(k) == IF k = 0 THEN <<Q(1)>> ELSE IF k = 1 THEN <<Q(1), Q(0)>> ELSE PAdd(PMul(<<Q(2), Q(0)>>, Cheb(k - 1)), PScale(Q(-1), Cheb(k - 2)))
RECURSIVE ChebSum(_, _)
ChebSum(c, i) == IF i > Len(c) THEN <<>> ELSE PAdd(PScale(Q(c[i]), Cheb(i - 1)), ChebSum(c, i + 1))
\* the same by Clenshaw's recurrence
RECURSIVE Clenshaw(_, _, _, _)
Clenshaw(c, i, b1, b2) == LET k == IF i = 1 THEN 1 ELSE 2 IN
  IF i = 0 THEN b1 ELSE Clenshaw(c, i - 1, PSubE(PAdd(PMul(<<Q(k), Q(0)>>, b1), <<Q(c[i])>>), b2), b1)
ChebPoly(c) == IF c = <<>> THEN <<>> ELSE Clenshaw(c, Len(c) - 1, <<Q(c[Len(c)])>>, <<>>)
\* the values of the derivatives 0, 1, 2, ... of a function F of y, at y = off + scl u
RECURSIVE QFact(_, _)
QFact(x, n) == IF n = 0 THEN Q(1) ELSE QMul(x, QFact(x, n - 1))
\* derivatives through u = ln(1 - T/Tc), with h = Tc - T
ChainLn(D, h) == Eager([j \in 1 .. Len(D) |-> CASE j = 1 -> D[1]
                   [] j = 2 -> (Neg(D[2]) // h)
                   [] j = 3 -> ((D[3] -- D[2]) // (h ** h))
                   [] j = 4 -> (Neg((("2" ** D[2]) -- ("3" ** D[3])) ++ D[4]) // ((h ** h) ** h))])
ChainLnA(D, h) == Eager([j \in 1 .. Len(D) |-> CASE j = 1 -> D[1]
                   [] j = 2 -> (D[2] // h)
                   [] j = 3 -> ((D[3] ++ D[2]) // (h ** h))
                   [] j = 4 -> (((("2" ** D[2]) ++ ("3" ** D[3])) ++ D[4]) // ((h ** h) ** h))])
\* derivatives of exp(f)
ChainExp(D, v) == Eager([j \in 1 .. Len(D) |-> CASE j = 1 -> v
                   [] j = 2 -> (v ** D[2])
                   [] j = 3 -> (v ** ((D[2] ** D[2]) ++ D[3]))
                   [] j = 4 -> (v ** ((((D[2] ** D[2]) ** D[2]) ++ (("3" ** D[2]) ** D[3])) ++ D[4]))])
\* a function that is a polynomial between Tmin and Tmax and continued by straight lines
Clamp(x, lo, hi) == RMax(lo, RMin(x, hi))
LineInt(v0, x0, s, a, b) == ((b -- a) ** (v0 ++ (s ** (((a ++ b) // "2") -- x0))))
LineIntX(v0, x0, s, a, b) == ((s ** (b -- a)) ++ ((v0 -- (s ** x0)) ** Ln(b // a)))
=============================================================================
