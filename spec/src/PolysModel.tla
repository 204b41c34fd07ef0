----------------------------- MODULE PolysModel -----------------------------
(* Polynomials built from a constant by multiplication with linear factors,   *)
(* integration, differentiation, addition and substitution, with the laws of  *)
(* these operations, of roots and of Chebyshev series.                        *)
EXTENDS Polys, TraceIO
CONSTANT Tier
VARIABLES p, roots, left
vars == <<p, roots, left>>
Depth == IF Tier = "thorough" THEN 5 ELSE 4
Init == \E k \in {1, -2} : p = <<Q(k)>> /\ roots = <<>> /\ left = Depth
Factor == \E r \in {-3, 0, 1, 2} : p' = PMul(p, <<Q(1), Q(-r)>>) /\ roots' = IF roots = <<99>> THEN roots ELSE Append(roots, r)
Integrate == p' = PInt(p) /\ roots' = <<99>>
Derive == Len(p) > 1 /\ p' = PDer(p) /\ roots' = <<99>>
Shift == Len(p) > 1 /\ p' = PComp(p, Lin(Q(1), Q(-1))) /\ roots' = <<99>>
Next == left > 0 /\ left' = left - 1 /\ (Factor \/ Integrate \/ Derive \/ Shift)
Spec == Init /\ [][Next]_vars
Xs == {-2, -1, 0, 1, 3}
At(q, x) == QHorner(q, Q(x))
RootLaw == roots # <<99>> => /\ \A i \in 1 .. Len(roots) : QEq(At(p, roots[i]), Q(0))
                             /\ PEq(PScale(p[1], FromRoots(roots)), p)
IntDer == PEq(PDer(PInt(p)), p)
Leibniz == LET q == <<Q(3), Q(-1), Q(2)>> IN PEq(PDer(PMul(p, q)), PAdd(PMul(PDer(p), q), PMul(p, PDer(q))))
CompLaw == LET l == Lin(Q(-2), Q(3)) IN \A x \in Xs : QEq(At(PComp(p, l), x), At(p, 3*x - 2))
AddLaw == \A x \in Xs : QEq(At(PAdd(p, PDer(p)), x), QAdd(At(p, x), At(PDer(p), x)))
ChebLaw == left = Depth => \A j \in 0 .. 5, k \in 0 .. 5 : j <= k => PEq(PScale(Q(2), PMul(Cheb(j), Cheb(k))), PAdd(Cheb(j + k), Cheb(k - j)))
ClenshawLaw == left = Depth => \A a \in {-1, 0, 2}, b \in {0, 3} : LET c == <<Q(a), Q(b), Q(1), Q(-a), Q(b)>> IN PEq(ChebPoly(c), ChebSum(c, 1)) /\ Len(ChebPoly(c)) = 5
Max(a, b) == IF a > b THEN a ELSE b
Deg == Len(p) - 1
Pl(r) == EmitPlan(r)
Fams == {"poly", "dom", "stable", "cheb"}
Emit ==
  /\ (left < Depth) => Pl([cell |-> <<"reached", [i \in 1 .. Len(p) |-> ToR(p[i])]>>, m |-> "reached", c |-> [i \in 1 .. Len(p) |-> ToR(p[i])],
        roots |-> roots])
  /\ (left = Depth /\ QEq(p[1], Q(1))) =>
       /\ \A f \in {"plain", "exp", "ln", "expln"}, b \in {"poly", "stable", "cheb"}, n \in 0 .. 7, x \in {"in", "edge", "out"} :
            (n = 0 => b # "cheb" /\ f = "plain") => Pl([cell |-> <<"ev", f, b, n, x>>, m |-> "ev", f |-> f, b |-> b, n |-> n, x |-> x])
       /\ \A n \in 1 .. 6 : \A k \in {"log", "stablelog", "domain", "overflow"} : Pl([cell |-> <<"one", k, n>>, m |-> "one", k |-> k, n |-> n])
       /\ \A n \in 0 .. 7 : \A k \in {"der", "int", "intstable", "overx", "overxstable", "unstable", "convert", "add", "mul", "chebder", "chebint"} : Pl([cell |-> <<"tr", k, n>>, m |-> "tr", k |-> k, n |-> n])
       /\ \A n \in 2 .. 4 : \A k \in {"real", "complex", "close", "scaled", "lead", "sym"} : Pl([cell |-> <<"roots", n, k>>, m |-> "roots", n |-> n, k |-> k])
       /\ \A k \in {"points", "ders", "lntau2", "lntau3", "deflate", "offset"} : Pl([cell |-> <<"fit", k>>, m |-> "fit", k |-> k])
       /\ \A i \in {"low", "min", "mid", "max", "high"}, j \in {"low", "min", "mid", "max", "high"} : Pl([cell |-> <<"pw", i, j>>, m |-> "pw", i |-> i, j |-> j])
       /\ \A k \in {"positive", "negative", "crossing", "outside", "shifted"}, n \in 1 .. 5 : Pl([cell |-> <<"sign", k, n>>, m |-> "sign", k |-> k, n |-> n])
       /\ \A n \in 0 .. 7 : Pl([cell |-> <<"mono", n>>, m |-> "mono", n |-> n])
=============================================================================
