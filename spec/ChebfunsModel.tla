---------------------------- MODULE ChebfunsModel ----------------------------
(* Two functions on an interval and every short sequence of operations on     *)
(* them, with the laws that tie the operations together.                      *)
EXTENDS Chebfuns, TraceIO
CONSTANT Tier
VARIABLES f, g, lo, hi, hist
vars == <<f, g, lo, hi, hist>>
Depth == IF Tier = "thorough" THEN 3 ELSE 2
Doms == {<<-1, 1>>, <<0, 3>>, <<-4, 2>>}
Init == /\ \E d \in Doms : lo = Q(d[1]) /\ hi = Q(d[2])
        /\ f = <<Q(1), Q(-2), Q(3)>> /\ g = <<Q(2), Q(1)>> /\ hist = <<>>
Do(op, F, G) == hist' = Append(hist, op) /\ f' = F /\ g' = G
Same2 == lo' = lo /\ hi' = hi
Add == Do("add", PAdd(f, g), g) /\ Same2
Sub == Do("sub", PSub(f, g), g) /\ Same2
Mul == Do("mul", PMul(f, g), g) /\ Same2
Neg1 == Do("neg", PScale(Q(-1), f), g) /\ Same2
Scalar == \E s \in {"addk", "raddk", "subk", "rsubk", "mulk", "rmulk", "divk"} :
            Do(s, CASE s \in {"addk", "raddk"} -> PAdd(f, <<Q(3)>>) [] s = "subk" -> PAdd(f, <<Q(-3)>>) [] s = "rsubk" -> PAdd(PScale(Q(-1), f), <<Q(3)>>)
                    [] s \in {"mulk", "rmulk"} -> PScale(Q(3), f) [] OTHER -> PScale(QDiv(Q(1), Q(3)), f), g) /\ Same2
Power == \E n \in {2, 3} : Do("pow" \o (IF n = 2 THEN "2" ELSE "3"), PPow(f, n), g) /\ Same2
Swap == Do("swap", g, f) /\ Same2
Diff == Do("diff", DX(f, lo, hi), g) /\ Same2
Diff2 == Do("diff2", DX(DX(f, lo, hi), lo, hi), g) /\ Same2
Prim == Do("int", IX(f, lo, hi), g) /\ Same2
Restrict == LET m == Mid(lo, hi) IN Do("restrict", RX(f, lo, hi, lo, m), RX(g, lo, hi, lo, m)) /\ lo' = lo /\ hi' = m
Next == Len(hist) < Depth /\ (Add \/ Sub \/ Mul \/ Neg1 \/ Scalar \/ Power \/ Swap \/ Diff \/ Diff2 \/ Prim \/ Restrict)
Spec == Init /\ [][Next]_vars
\* laws
SeriesRoundTrip == PEq(ChebPoly(ToCheb(f)), f)
SumIsIntegral == QEq(CSum(ToCheb(f)), PSum(f))
Fundamental == PEq(DX(IX(f, lo, hi), lo, hi), f) /\ QEq(QHorner(IX(f, lo, hi), Q(-1)), Q(0))
               /\ QEq(QHorner(IX(f, lo, hi), Q(1)), QMul(QMul(Half, Width(lo, hi)), PSum(f)))
Product == PEq(DX(PMul(f, g), lo, hi), PAdd(PMul(DX(f, lo, hi), g), PMul(f, DX(g, lo, hi))))
ByParts == LET I(p) == QMul(QMul(Half, Width(lo, hi)), PSum(p))
               E(p) == QSub(QHorner(p, Q(1)), QHorner(p, Q(-1)))
           IN QEq(QAdd(I(PMul(f, DX(g, lo, hi))), I(PMul(g, DX(f, lo, hi)))), E(PMul(f, g)))
Additive == LET m == Mid(lo, hi)  I(p, a, b) == QMul(QMul(Half, Width(a, b)), PSum(p))
            IN QEq(QAdd(I(RX(f, lo, hi, lo, m), lo, m), I(RX(f, lo, hi, m, hi), m, hi)), I(f, lo, hi))
RestrictSame == LET m == Mid(lo, hi)  r == RX(f, lo, hi, lo, m) IN
   \A k \in 0 .. 4 : LET x == QAdd(lo, QMul(QDiv(Q(k), Q(4)), Width(lo, m))) IN QEq(QHorner(r, ToU(lo, m, x)), QHorner(f, ToU(lo, hi, x)))
InX == \A k \in 0 .. 3 : LET x == QAdd(lo, QMul(QDiv(Q(k), Q(3)), Width(lo, hi))) IN QEq(QHorner(PComp(f, LinU(lo, hi)), x), QHorner(f, ToU(lo, hi, x)))
Pl(r) == EmitPlan(r)
DomKinds == {"unit", "zero", "plain", "offset", "wide"}
Emit ==
  /\ (lo = Q(-1) /\ Len(hist) = Depth) => \A d \in {"unit", "any"} : Pl([cell |-> <<"walk", hist, d>>, m |-> "walk", ops |-> hist, d |-> d])
  /\ hist = <<>> /\ lo = Q(-1) =>
      /\ \A d \in DomKinds :
          /\ \A k \in {"scalar", "values", "coeffs", "function", "functionN", "copy", "build", "identity", "unpruned", "array"}, n \in {1, 2, 3, 6} :
               Pl([cell |-> <<"make", k, n, d>>, m |-> "make", k |-> k, n |-> n, d |-> d])
          /\ \A k \in {"exp", "sin", "cos", "log", "sqrt", "arctan", "tanh", "sinh", "cosh", "expm1", "log1p", "exp2", "log2", "tan", "arcsin", "arccos", "arcsinh", "arccosh", "arctanh", "fabs", "abs", "div", "rdivk", "pow"} :
               Pl([cell |-> <<"fn", k, d>>, m |-> "fn", k |-> k, d |-> d])
          /\ \A n \in 1 .. 6, k \in {"inside", "outside", "mixed", "complex", "none"} : Pl([cell |-> <<"roots", n, k, d>>, m |-> "roots", n |-> n, k |-> k, d |-> d])
          /\ \A k \in {"sine", "solve", "solvefew", "resolve"} : Pl([cell |-> <<"many", k, d>>, m |-> "many", k |-> k, d |-> d])
          /\ \A n \in {1, 2, 5} : \A k \in {"vector", "convert", "dot", "equal", "refuse"} : Pl([cell |-> <<"misc", k, n, d>>, m |-> "misc", k |-> k, n |-> n, d |-> d])
      /\ \A n \in 0 .. 9 : Pl([cell |-> <<"basis", n>>, m |-> "basis", n |-> n, d |-> "unit"])
=============================================================================
