---------------------------- MODULE SolverModel ----------------------------
(* Bracketing on a grid: whatever the signs of the function, a method that    *)
(* evaluates strictly inside the current bracket and keeps an end of either   *)
(* sign closes in on a sign change.  The plan crosses methods, families of    *)
(* functions and options.                                                     *)
EXTENDS Solver, TraceIO
CONSTANT Tier
VARIABLES what, m, fam, flags, sign, lo, hi, found, n
vars == <<what, m, fam, flags, sign, lo, hi, found, n>>
Top == 6
OptsOf(k) == CASE k = "bisect" -> {"wide", "swap", "same", "atend", "xtol", "rtol", "ytol", "few", "args"}
               [] k = "ridder" -> {"wide", "swap", "same", "atend", "xtol", "rtol", "few", "args"}
               [] k = "brenth" -> {"wide", "swap", "same", "atend", "xtol", "rtol", "ytol", "few", "ends", "q", "args"}
               [] k = "secant" -> {"low", "high", "out", "ytol", "noxtol", "xtol", "bis", "eval", "damp", "few", "x1", "f0", "far", "noreq", "args", "more"}
               [] k = "newton" -> {"low", "high", "out", "ytol", "noxtol", "xtol", "bis", "eval", "damp", "few", "hal", "calls", "dfun", "far", "noreq", "args", "more"}
               [] k = "halley" -> {"low", "high", "out", "ytol", "noxtol", "xtol", "bis", "eval", "damp", "few", "dfun", "far", "args"}
               [] OTHER -> {"x1", "given", "noxtol", "few", "args"}
Fams(k) == CASE k \in Bracketing -> {"cubic", "expm", "atan", "ninth", "cbrt", "step", "ramp", "wave"}
             [] k = "onesided" -> {"cubic", "expm", "wave"}
             [] k = "halley" -> {"cubic", "expm", "atan", "sinh"}
             [] OTHER -> {"cubic", "expm", "atan", "sinh", "ninth", "ramp", "hole", "wave"}
Sensible(k, fs) == /\ ~({"same", "atend"} \subseteq fs) /\ ~({"noxtol", "xtol"} \subseteq fs) /\ ("noxtol" \in fs /\ k # "onesided" => "ytol" \in fs) /\ ("noreq" \in fs => "ytol" \in fs)
                   /\ ("out" \in fs => fs \intersect {"low", "high", "far", "dfun"} = {})
                   /\ ("dfun" \in fs => "bis" \notin fs)
Least(k) == IF k \in Bracketing THEN 2 ELSE 3
Ks == {"bisect", "ridder", "brenth", "secant", "newton", "halley", "onesided"}
Init == \/ /\ what = "plan" /\ m \in Ks /\ fam \in Fams(m) /\ flags = {} /\ sign = <<>> /\ lo = 0 /\ hi = 0 /\ found = 0 /\ n = 0
        \/ /\ what = "run" /\ m = "any" /\ fam = "any" /\ flags = {} /\ sign \in [0 .. Top -> {-1, 0, 1}] /\ sign[0]*sign[Top] < 0 /\ lo = 0 /\ hi = Top /\ found = -1 /\ n = 0
Ask == what = "plan" /\ Cardinality(flags) < Least(m) /\ \E f \in OptsOf(m) \ flags : flags' = flags \union {f} /\ UNCHANGED <<what, m, fam, sign, lo, hi, found, n>>
Eval == what = "run" /\ found = -1 /\ hi - lo > 1 /\ \E x \in lo + 1 .. hi - 1 :
          /\ n' = n + 1
          /\ IF sign[x] = 0 THEN found' = x /\ UNCHANGED <<lo, hi>>
             ELSE IF sign[x] = sign[lo] THEN lo' = x /\ UNCHANGED <<hi, found>> ELSE hi' = x /\ UNCHANGED <<lo, found>>
          /\ UNCHANGED <<what, m, fam, flags, sign>>
Next == Ask \/ Eval
Spec == Init /\ [][Next]_vars
Bracket == what = "run" => /\ sign[lo]*sign[hi] < 0 /\ lo < hi /\ (n + (hi - lo) <= Top \/ found # -1)
Answer == (what = "run" /\ (found # -1 \/ hi - lo = 1)) => IF found # -1 THEN sign[found] = 0 ELSE sign[lo]*sign[hi] < 0
\* the secant through two points of a line meets its zero at once, from any two points
Line(x) == [x |-> x, y |-> (("3" ** x) -- "7.5"), d |-> R("3"), c |-> R("0")]
OnLine == what = "plan" => LET a == [x0 |-> R("1")] IN \A u \in {"-4", "0", "9"} : /\ Close(SecantStep(a, Line(u), Line("1")), "2.5", "1e-14")
             /\ \A k \in {"newton", "halley"} : Close(RawNewton(k, a, {"hal"}, Line(u)), "2.5", "1e-14")
Emit == (what = "plan" /\ Sensible(m, flags)) => EmitPlan([cell |-> <<m, fam, flags>>, m |-> m, fam |-> fam, flags |-> flags, n |-> IF m \in Bracketing THEN 2 ELSE 1])
=============================================================================
