---------------------------- MODULE DDoubleModel ----------------------------
(* The error-free transformations the arithmetic rests on, checked over every *)
(* pair of numbers of a small binary format (P digits, rounding to nearest,   *)
(* ties to even), stepping through them as the code does.                     *)
EXTENDS DDouble, TraceIO
CONSTANT Tier
P == 5
VARIABLES x, y, pc, r, t, e
vars == <<x, y, pc, r, t, e>>
AbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
\* nearest number of P digits (integers: no underflow)
Rnd(n) == LET a == AbsI(n)  b == Bits(a)  u == IF b <= P THEN 1 ELSE Pow2(b - P)  q == a \div u  rem == a % u
              q2 == IF 2 * rem > u THEN q + 1 ELSE IF 2 * rem < u THEN q ELSE IF u = 1 THEN q ELSE IF q % 2 = 0 THEN q ELSE q + 1
          IN IF n < 0 THEN -(q2 * u) ELSE q2 * u
Nums == {n \in -96 .. 96 : Rnd(n) = n}
Init == x \in Nums /\ y \in Nums /\ pc = "start" /\ r = 0 /\ t = 0 /\ e = 0
Sum == pc = "start" /\ pc' = "sum" /\ r' = Rnd(x + y) /\ UNCHANGED <<x, y, t, e>>
Back == pc = "sum" /\ pc' = "back" /\ t' = Rnd(r - x) /\ UNCHANGED <<x, y, r, e>>
Err == pc = "back" /\ pc' = "summed" /\ e' = Rnd(Rnd(x - Rnd(r - t)) + Rnd(y - t)) /\ UNCHANGED <<x, y, r, t>>
Next == Sum \/ Back \/ Err
Spec == Init /\ [][Next]_vars
SumIsExact == pc = "summed" => r + e = x + y
SmallPart == pc = "summed" => 2 * AbsI(e) <= Pow2(IF Bits(AbsI(r)) <= P THEN 0 ELSE Bits(AbsI(r)) - P)
\* splitting by 2^3 + 1 and the exact product
Split(n) == LET u == Rnd(9 * n) IN Rnd(u - Rnd(u - n))
ProductIsExact == pc = "start" =>
  LET s == Split(x)  g == Split(y)  f == Rnd(x - s)  h == Rnd(y - g)  p == Rnd(x * y)
      d == Rnd(Rnd(Rnd(Rnd(s * g - p) + Rnd(s * h)) + Rnd(f * g)) + Rnd(f * h)) IN p + d = x * y
Halves == pc = "start" => LET s == Split(x)  f == Rnd(x - s) IN s + f = x /\ Rnd(s * Split(y)) = s * Split(y)
AtStart == x = 0 /\ y = 0 /\ pc = "start"
Laws == AtStart => /\ \A a \in -3 .. 3, b \in {-2, 1, 5} : QEq(Exact("mul_dd", Exact("div_dd", Q(a), Q(b)), Q(b)), Q(a))
                   /\ \A a \in -3 .. 3, b \in -2 .. 2 : LET u == <<Q(a), Q(b)>> IN (a # 0 \/ b # 0) => XNear(XMul(u, XInv(u)), <<Q(1), Q(0)>>, Q(0), "1")
                   /\ \A a \in {2, 3, 7} : QLe(QAbs(QSub(Exact("exp_dd", Exact("log_dd", Q(a), Q(0)), Q(0)), Q(a))), Q("1e-70"))
                   /\ \A a \in -3 .. 3, n \in 0 .. 6 : QEq(QMul(Q(a), QIPow(Q(a), n)), QIPow(Q(a), n + 1))
Ops == {"add_dd", "mul_dd", "div_dd", "square_dd", "cube_dd", "sqrt_dd", "cbrt_dd", "cbrt_explicit_dd", "exp_dd", "log_dd"}
Low == {"none", "tiny", "full", "opposite"}
Emit == AtStart =>
  /\ \A f \in Ops, l \in Low, z \in {"unit", "small", "large", "integer", "near"} : EmitPlan([cell |-> <<f, l, z>>, m |-> "real", f |-> f, l |-> l, z |-> z])
  /\ \A z \in {"unit", "small", "large", "integer"} : EmitPlan([cell |-> <<"exactmul", z>>, m |-> "exactmul", z |-> z])
  /\ \A n \in -6 .. 12, l \in Low : EmitPlan([cell |-> <<"intpow", n, l>>, m |-> "intpow", n |-> n, l |-> l])
  /\ \A k \in {"whole", "wholefloat", "fraction", "negative", "big"}, l \in Low : EmitPlan([cell |-> <<"pow", k, l>>, m |-> "pow", k |-> k, l |-> l])
  /\ \A k \in {"same", "high", "low", "lowbelow", "sign"} : EmitPlan([cell |-> <<"compare", k>>, m |-> "compare", k |-> k])
  /\ \A f \in {"mul_imag_dd", "mul_imag_noerrors_dd", "add_imag_dd", "imag_inv_dd", "div_imag_dd", "sqrt_imag_dd", "cbrt_imag_dd"}, q \in {"q1", "q2", "q3", "q4", "real", "negreal", "imag"} : EmitPlan([cell |-> <<f, q>>, m |-> "cplx", f |-> f, q |-> q])
  /\ \A a \in Ops \ {"exp_dd", "log_dd"}, b \in Ops \ {"exp_dd", "log_dd"} : EmitPlan([cell |-> <<"chain", a, b>>, m |-> "chain", fs |-> <<a, b>>])
=============================================================================
