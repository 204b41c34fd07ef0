-------------------------- MODULE InterpolateModel --------------------------
(* Laws of the definitions on small grids, and the binary search as a machine *)
(* on every sorted sequence of small numbers.                                 *)
EXTENDS Interpolate, TraceIO
CONSTANT Tier
VARIABLES arr, key, lo, hi, pc
vars == <<arr, key, lo, hi, pc>>
Nums == 0 .. 2
Sorted(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
Init == /\ \E n \in 1 .. 4 : \E s \in [1 .. n -> Nums] : Sorted(s) /\ arr = Eager(s)
        /\ key \in -1 .. 3 /\ lo = 0 /\ hi = Len(arr) /\ pc = IF key > arr[Len(arr)] THEN "above" ELSE "search"
Step == pc = "search" /\ UNCHANGED <<arr, key>> /\
        IF lo < hi THEN LET m == lo + ((hi - lo) \div 2) IN IF key >= arr[m + 1] THEN lo' = m + 1 /\ UNCHANGED <<hi, pc>> ELSE hi' = m /\ UNCHANGED <<lo, pc>>
        ELSE pc' = "found" /\ UNCHANGED <<lo, hi>>
Spec == Init /\ [][Step]_vars
Below == Cardinality({i \in 1 .. Len(arr) : arr[i] <= key})
Found == pc = "found" => lo = Below
Window == pc = "search" => lo <= Below /\ Below <= hi
AtStart == arr = <<0>> /\ key = 0 /\ lo = 0 /\ pc = "search" /\ hi = 1
\* a spline with equal coefficients is constant, and with those of its averaged knots is the identity
Knots(k) == Eager([i \in 1 .. k + 1 |-> R("0")] \o <<R("1"), R("1.5"), R("4")>> \o [i \in 1 .. k + 1 |-> R("5")])
Xs == {"0", "0.25", "1", "1.25", "2", "4", "4.5", "5"}
Greville(t, k) == Eager([i \in 1 .. Len(t) - k - 1 |-> QDiv(QSum([j \in 1 .. k |-> Q(t[i + j])]), Q(k))])
Unity == AtStart => \A k \in 1 .. 5, x \in Xs : LET t == Knots(k) IN QEq(SplineQ(t, [i \in 1 .. Len(t) - k - 1 |-> R("1")], k, R(x)), Q(1))
Identity == AtStart => \A k \in 1 .. 5, x \in Xs : LET t == Knots(k) IN QEq(SplineQ(t, Greville(t, k), k, R(x)), Q(R(x)))
\* degree of the rules: 31 for the extension, 19 for the rule inside it
KronrodDegree == AtStart => \A m \in 0 .. 31 : QClose(ToR(Moment(GKW, m, FALSE)), TrueMoment(m), "0", "5e-15")
GaussDegree == AtStart => \A m \in 0 .. 19 : QClose(ToR(Moment(GLW, m, TRUE)), TrueMoment(m), "0", "5e-15")
NotMore == AtStart => ~QClose(ToR(Moment(GLW, 20, TRUE)), TrueMoment(20), "0", "1e-9")
\* the double integral of 1 over a triangle, of x y over the unit square
Doubles == AtStart => QEq(DblArea(<<<<R("1")>>>>, <<R("0"), R("0")>>, <<R("1"), R("0")>>, R("0"), R("2")), Q(2)) /\ QEq(DblArea(<<<<R("0"), R("0")>>, <<R("0"), R("1")>>>>, <<R("0"), R("0")>>, <<R("0"), R("1")>>, R("0"), R("1")), QDiv(Q(1), Q(4)))
Sizes == {1, 2, 3, 7, 40}
Emit == AtStart =>
  /\ \A n \in Sizes, k \in {"between", "tie", "below", "above", "node"} : EmitPlan([cell |-> <<"search", n, k>>, m |-> "search", n |-> n, k |-> k])
  /\ \A n \in Sizes, k \in {"between", "below", "above", "node", "last"}, o \in {"plain", "extra", "ends", "both", "array"} : (n > 1 \/ o \notin {"extra", "both"}) => EmitPlan([cell |-> <<"interp", n, k, o>>, m |-> "interp", n |-> n, k |-> k, o |-> o])
  /\ \A kx \in {"in", "node", "below", "above"}, ky \in {"in", "node", "below", "above", "first", "last"}, s \in {2, 4} : EmitPlan([cell |-> <<"two", kx, ky, s>>, m |-> "two", kx |-> kx, ky |-> ky, s |-> s])
  /\ \A k \in 0 .. 5, x \in 0 .. 3, w \in {"in", "knot", "below", "above", "end"} : EmitPlan([cell |-> <<"splev", k, x, w>>, m |-> "splev", k |-> k, ext |-> x, w |-> w])
  /\ EmitPlan([cell |-> <<"long">>, m |-> "long"])
  /\ \A kx \in 1 .. 5, ky \in 1 .. 5, w \in {"in", "out", "knot"} : EmitPlan([cell |-> <<"bisplev", kx, ky, w>>, m |-> "bisplev", kx |-> kx, ky |-> ky, w |-> w])
  /\ \A w \in {"three", "five", "four"} : EmitPlan([cell |-> <<"tck", w>>, m |-> "tck", w |-> w])
  /\ \A w \in {"x", "dx", "unit", "one", "none", "wrong"} : EmitPlan([cell |-> <<"trap", w>>, m |-> "trap", w |-> w])
  /\ \A f \in {"poly", "exp", "peak", "kink", "step", "zero", "args"}, t \in {"default", "loose", "tight"}, d \in {"up", "down"} : EmitPlan([cell |-> <<"adaptive", f, t, d>>, m |-> "adaptive", f |-> f, t |-> t, d |-> d])
  /\ \A n \in {3, 19, 31}, d \in {"up", "down"} : EmitPlan([cell |-> <<"rule", n, d>>, m |-> "rule", n |-> n, d |-> d])
  /\ \A f \in {"poly", "exp", "peak"}, g \in {"lazy", "quad"} : EmitPlan([cell |-> <<"lazy", f, g>>, m |-> "lazy", f |-> f, g |-> g])
  /\ \A w \in {"dbl", "dblargs", "n1", "n2", "n2args", "n3"}, g \in {"box", "slant"} : EmitPlan([cell |-> <<"many", w, g>>, m |-> "many", w |-> w, g |-> g])
=============================================================================
