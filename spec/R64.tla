-------------------------------- MODULE R64 --------------------------------
(* Numbers for TLC: IEEE-754 binary64, evaluated by java/vf/R64Impl.java;    *)
(* the bodies below only fix the signatures.  A string literal such as       *)
(* "0.25" stands for the binary64 number it denotes.  Where one operand of   *)
(* an arithmetic or comparison operator is an exact rational (module Q) and  *)
(* neither is binary64, the result is exact.                                 *)
(* Every operator is total: an operand that is not a number counts as NaN,   *)
(* so a comparison over an error value is FALSE, and the clause it is part   *)
(* of is reported as broken instead of stopping the model checker.           *)
R(s)    == s
x ++ y  == 0
x -- y  == 0
x ** y  == 0
x // y  == 0
x ^^ y  == 0
x \prec y   == FALSE
x \preceq y == FALSE
x \succ y   == FALSE
x \succeq y == FALSE
REq(x, y) == FALSE
Neg(x)  == 0
Abs(x)  == 0
Sqrt(x) == 0
Cbrt(x) == 0
Ln(x)   == 0
Log10(x) == 0
Exp(x)  == 0
Sin(x)  == 0
Cos(x)  == 0
Tan(x)  == 0
Asin(x) == 0
Acos(x) == 0
Atan(x) == 0
Atan2(y, x) == 0
Sinh(x) == 0
Cosh(x) == 0
Tanh(x) == 0
Floor(x) == 0
Erf(x)  == 0
LnGamma(x) == 0
RMin(x, y) == 0
RMax(x, y) == 0
RSum(s)  == 0       \* sum of a sequence
CumSum(s) == <<>>   \* running sums, starting with 0
RMaxSeq(s) == 0
RMinSeq(s) == 0
Poly(c, x) == 0     \* c[1] + c[2] x + c[3] x^2 + ...
Interp(x, xs, ys) == 0  \* piecewise linear, constant outside
BSpl(t, c, k, x) == 0   \* B-spline of degree k, knots t, coefficients c
BSpl2(tck, x, y) == 0   \* tensor-product B-spline <<tx, ty, c, kx, ky>>
Reals == {}         \* the set of all numbers: domain of f below
Quad(f, a, b) == 0  \* integral of f over [a, b], tanh-sinh
Zero(f, a, b) == 0  \* a zero of f in [a, b] by bisection
Finite(x) == FALSE
IsNum(x) == FALSE
IsNaN(x) == FALSE
Truncate(x) == 0    \* toward zero, as a TLA+ integer
Close(x, y, rtol) == FALSE           \* |x-y| <= rtol*max(|x|,|y|)
CloseA(x, y, rtol, atol) == FALSE    \* ... or |x-y| <= atol
CloseSeq(x, y, rtol, atol) == FALSE  \* elementwise, same shape
Same(x, y) == FALSE \* total equality across kinds of value
IndexOf(s, v) == 0
IsErr(x) == FALSE   \* an exception, recorded as "!Name"
ErrIs(x, name) == FALSE
IsSeq(x) == FALSE
IsStr(x) == FALSE
IsBool(x) == FALSE
IsInt(x) == FALSE
IsTrue(x) == FALSE
IsFalse(x) == FALSE
IsRec(x) == FALSE
Has(r, k) == FALSE
Get(r, k) == 0      \* r[k], or "!absent"
Str(x) == ""
=============================================================================
