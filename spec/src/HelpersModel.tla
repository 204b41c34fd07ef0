---------------------------- MODULE HelpersModel ----------------------------
(* A memo in front of a function as a machine over all short histories of     *)
(* calls, and laws of the measures on small sequences.                        *)
EXTENDS Helpers, TraceIO
CONSTANT Tier
VARIABLES memo, calls, hist
vars == <<memo, calls, hist>>
Keys == {"a", "b", "c"}
Init == memo = {} /\ calls = <<>> /\ hist = <<>>
Ask(k) == Len(hist) < 5 /\ hist' = Append(hist, k) /\ memo' = memo \union {k} /\ calls' = IF k \in memo THEN calls ELSE Append(calls, k)
Next == \E k \in Keys : Ask(k)
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in 1 .. Len(s)}
OncePerKey == \A k \in Keys : Cardinality({i \in 1 .. Len(calls) : calls[i] = k}) = IF k \in Range(hist) THEN 1 ELSE 0
MemoIsHistory == memo = Range(hist)
Vals == {"0", "1", "-2"}
Seqs == {<<R(x), R(y)>> : x \in Vals, y \in Vals}
AtStart == hist = <<>>
SumOfDiffs == AtStart => \A s \in Seqs : LET t == <<R("5")>> \o s IN QEq(QAdd(Q(t[1]), QTotal(Diffs(t, 1))), Q(t[3])) /\ QEq(Sums(t, Q(0))[3], QTotal(t))
SecondDiffs == AtStart => \A s \in Seqs : LET t == s \o <<R("3"), R("7")>> IN Diffs(t, 2) = Diffs(Eager([i \in 1 .. 3 |-> ToR(Diffs(t, 1)[i])]), 1)
VarLaw == AtStart => \A s \in Seqs : QEq(QVar(s), QSub(QDiv(QSum([i \in 1 .. 2 |-> QMul(Q(s[i]), Q(s[i]))]), Q(2)), QMul(QMean(s), QMean(s))))
Pascal == AtStart => \A n \in 1 .. 8, k \in 0 .. 8 : QEq(Choose2(n, k), QAdd(Choose2(n - 1, k - 1), Choose2(n - 1, k)))
Measures == {"max_abs_error", "max_squared_error", "mean_abs_error", "mean_squared_error", "max_abs_rel_error", "mean_abs_rel_error", "max_squared_rel_error", "mean_squared_rel_error"}
NoError == AtStart => \A s \in Seqs, f \in Measures : LET m == Measure([f |-> f, data |-> s, calc |-> s]) IN IF IsStr(m) THEN \E i \in 1 .. 2 : Zero0(s[i]) ELSE QEq(m, Q(0))
MeanBelowMax == AtStart => \A s \in Seqs, t \in Seqs : QLe(Measure([f |-> "mean_abs_error", data |-> s, calc |-> t]), Measure([f |-> "max_abs_error", data |-> s, calc |-> t])) /\ QLe(Measure([f |-> "mean_squared_error", data |-> s, calc |-> t]), Measure([f |-> "max_squared_error", data |-> s, calc |-> t]))
Emit == AtStart =>
  /\ \A n \in {0, 1, 2, 3, 11, 50}, k \in {"lin", "linopen", "linstep", "openstep", "log", "logopen", "logbase"} : EmitPlan([cell |-> <<k, n>>, m |-> "space", k |-> k, n |-> n])
  /\ \A n \in {1, 2, 3, 8}, k \in {"product", "cumsum", "mean", "std", "normalize"} : EmitPlan([cell |-> <<k, n>>, m |-> "reduce", k |-> k, n |-> n])
  /\ \A n \in {1, 2, 4, 7}, k \in -1 .. 4 : EmitPlan([cell |-> <<"diff", n, k>>, m |-> "diffs", n |-> n, k |-> k])
  /\ \A f \in Measures, z \in {"plain", "zero", "bothzero", "same", "far"}, n \in {1, 2, 6} : EmitPlan([cell |-> <<f, z, n>>, m |-> "measure", f |-> f, z |-> z, n |-> n])
  /\ \A z \in {"plain", "zero", "bothzero", "same", "low", "high"} : EmitPlan([cell |-> <<"ratios", z>>, m |-> "ratios", z |-> z])
  /\ \A z \in {"none", "one", "cut"} : EmitPlan([cell |-> <<"outlier", z>>, m |-> "outlier", z |-> z])
  /\ \A d \in 0 .. 4, w \in {"same", "close", "far", "abs", "nan", "onenan", "inf", "shape", "deeper", "none", "last"} : EmitPlan([cell |-> <<"close", d, w>>, m |-> "close", d |-> d, w |-> w])
  /\ \A d \in 0 .. 5, t \in {"float", "int", "other"} : EmitPlan([cell |-> <<"zeros", d, t>>, m |-> "zeros", d |-> d, t |-> t])
  /\ \A z \in {"low", "mid", "high", "edge", "out"} : EmitPlan([cell |-> <<"polylog", z>>, m |-> "polylog", z |-> z])
  /\ \A k \in {0, -1, 1}, z \in {"small", "big", "negative"} : EmitPlan([cell |-> <<"lambert", k, z>>, m |-> "lambert", k |-> k, z |-> z])
  /\ \A f \in {"exp", "log", "expnp", "lognp", "expnpout", "lognpout"}, z \in {"plain", "edge", "trunc"} : EmitPlan([cell |-> <<"trunc", f, z>>, m |-> "trunc", f |-> f, z |-> z])
  /\ \A f \in {"factorial", "py_factorial", "comb", "py_comb"} : EmitPlan([cell |-> <<"count", f>>, m |-> "count", f |-> f])
  /\ \A z \in {"plain", "big", "tiny", "zero"} : EmitPlan([cell |-> <<"hypot", z>>, m |-> "hypot", z |-> z])
  /\ \A f \in {"acos", "atan", "atanh", "cacos", "catan", "catanh"}, z \in {"q1", "q2", "q3", "q4", "real", "imag", "large"} : EmitPlan([cell |-> <<"complex", f, z>>, m |-> "cplx", f |-> f, z |-> z])
  /\ \A f \in {"sincos", "cbrt"} : EmitPlan([cell |-> <<f>>, m |-> "elem", f |-> f])
  /\ \A i \in BOOLEAN, f \in BOOLEAN : EmitPlan([cell |-> <<"memo", i, f>>, m |-> "memo", i |-> i, f |-> f])
  /\ \A f \in {"clip", "clipnone", "residual"} : EmitPlan([cell |-> <<f>>, m |-> "vec", f |-> f])
=============================================================================
