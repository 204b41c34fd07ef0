---------------------------- MODULE ChebfunsTrace ----------------------------
(* Recorded runs of function objects.  The state is the pair of series last   *)
(* observed (exactly) with their interval; each operation is decided against  *)
(* exact algebra on them.                                                     *)
EXTENDS TraceBase, Chebfuns
MyInit(e) == [f |-> <<>>, g |-> <<>>, lo |-> 0, hi |-> 1]
EPS == "2.220446049250313e-16"
Size(c) == RSum([i \in 1 .. Len(c) |-> Abs(ToR(Q(c[i])))])
\* loss by mapping points of an interval away from zero, for a series of n terms
Kappa(lo, hi, n) == R("1" ++ (((("0.1" ** R(n)) ** R(n)) ** (Abs(lo) ++ Abs(hi))) // (hi -- lo)))
At0(c, i) == IF i <= Len(c) THEN Q(c[i]) ELSE Q(0)
\* a series observed against an expected one
SeriesClose(o, x, t) == IsSeq(o) /\ LET n == IF Len(o) > Len(x) THEN Len(o) ELSE Len(x) IN \A i \in 1 .. n : CloseA(ToR(At0(o, i)), ToR(At0(x, i)), "0", t)
\* an observation agrees with itself: evaluation, nodes and integral are those of its series
Obs(m) ==
  LET lo == m.dom[1] hi == m.dom[2]  n == Len(m.c)
      p == ChebPoly(m.c)  S == Size(m.c)  t == R("1e-13") ** ((R("1e-3") ++ S) ** Kappa(lo, hi, n))
      V == Eager([i \in 1 .. Len(m.x) |-> ToR(QHorner(p, ToU(lo, hi, m.x[i])))])
  IN [Evaluates |-> \A i \in 1 .. Len(m.x) : CloseA(m.v[i], V[i], "0", t) /\ CloseA(m.va[i], V[i], "0", t),
      Integral |-> CloseA(m.sum, ToR(QMul(QMul(Half, Width(lo, hi)), PSum(p))), "0", (("1e-14" ** S) ** (hi -- lo))),
      Nodes |-> m.n = n /\ Len(m.vals) = n /\ CloseA(m.vals[1], ToR(QHorner(p, Q(IF n = 1 THEN 0 ELSE 1))), "0", t) /\ (n > 1 => CloseA(m.vals[n], ToR(QHorner(p, Q(-1))), "0", t))]
Nums(s) == IsSeq(s) /\ \A i \in 1 .. Len(s) : IsNum(s[i]) /\ Finite(s[i])
NumsN(s, n) == Nums(s) /\ Len(s) = n
IsObs(m) == IsRec(m) /\ Has(m, "c") /\ Nums(m.c) /\ m.c # <<>> /\ Nums(m.x) /\ NumsN(m.v, Len(m.x)) /\ NumsN(m.va, Len(m.x)) /\ NumsN(m.dom, 2) /\ NumsN(<<m.sum, m.n>>, 2) /\ Nums(m.vals)
\* the observation m shows the function with series x on [lo, hi]
Shows(m, x, lo, hi, t) ==
  IF ~IsObs(m) THEN [Answers |-> FALSE]
  ELSE Obs(m) @@ [Domain |-> REq(m.dom[1], lo) /\ REq(m.dom[2], hi), Series |-> SeriesClose(m.c, x, t)]
TolOf(S, k) == R("2e-13") ** ((R("1") ++ S) ** k)
Ser(c) == Eager([i \in 1 .. Len(c) |-> Q(c[i])])
\* the series of exact operations
StepF(s, e) ==
  LET a == e.a k == e.k  F == ChebPoly(s.f) G == ChebPoly(s.g) z == Q(a.s) IN
  CASE k = "add" -> CAdd(s.f, s.g)
    [] k = "sub" -> ToCheb(PSub(F, G))
    [] k = "mul" -> ToCheb(PMul(F, G))
    [] k = "neg" -> PScale(Q(-1), Ser(s.f))
    [] k \in {"addk", "raddk"} -> CAdd(s.f, <<z>>)
    [] k = "subk" -> CAdd(s.f, <<QNeg(z)>>)
    [] k = "rsubk" -> CAdd(PScale(Q(-1), Ser(s.f)), <<z>>)
    [] k \in {"mulk", "rmulk"} -> PScale(z, Ser(s.f))
    [] k = "divk" -> PScale(QDiv(Q(1), z), Ser(s.f))
    [] k = "pow2" -> ToCheb(PMul(F, F))
    [] k = "pow3" -> ToCheb(PPow(F, 3))
    [] k = "swap" -> Ser(s.g)
    [] k = "diff" -> ToCheb(DX(F, s.lo, s.hi))
    [] k = "diff2" -> ToCheb(DX(DX(F, s.lo, s.hi), s.lo, s.hi))
    [] k = "int" -> ToCheb(IX(F, s.lo, s.hi))
    [] k = "restrict" -> ToCheb(RX(F, s.lo, s.hi, a.lo2, a.hi2))
StepTol(s, e, x) ==
  LET n == Len(s.f) + Len(s.g)  S == Size(s.f)  P == Size(s.g)  w == R("1" ++ ((R(n) ** R(n)) // (s.hi -- s.lo)))  K == Kappa(s.lo, s.hi, Len(x)) IN
  CASE e.k \in {"diff"} -> TolOf(S, w) [] e.k = "diff2" -> TolOf(S, w ** w) [] e.k = "int" -> TolOf(S, R("1" ++ (s.hi -- s.lo)))
    [] e.k = "mul" -> TolOf(S ** P, K) [] e.k = "pow2" -> TolOf(S ** S, K) [] e.k = "pow3" -> TolOf((S ** S) ** S, K)
    [] e.k \in {"mulk", "rmulk", "divk"} -> TolOf(S ** (Abs(e.a.s) ++ (R("1") // Abs(e.a.s))), K)
    [] e.k = "restrict" -> TolOf(S ++ P, Kappa(e.a.lo2, e.a.hi2, n) ++ K)
    [] OTHER -> TolOf((S ++ P) ++ Abs(e.a.s), R("1"))
Known(k, a, f) ==   \* functions applied to a function
  CASE k = "exp" -> (Exp(f)) [] k = "expm1" -> (Exp(f) -- "1") [] k = "exp2" -> (Exp(f ** Ln(R("2"))))
    [] k = "log" -> (Ln(f)) [] k = "log1p" -> (Ln("1" ++ f)) [] k = "log2" -> (Ln(f) // Ln(R("2"))) [] k = "sqrt" -> Sqrt(f)
    [] k = "sin" -> Sin(f) [] k = "cos" -> Cos(f) [] k = "tan" -> Tan(f) [] k = "arctan" -> Atan(f) [] k = "arcsin" -> Asin(f) [] k = "arccos" -> Acos(f)
    [] k = "sinh" -> ((Exp(f) -- Exp(Neg(f))) // "2") [] k = "cosh" -> ((Exp(f) ++ Exp(Neg(f))) // "2") [] k = "tanh" -> ((Exp("2" ** f) -- "1") // (Exp("2" ** f) ++ "1"))
    [] k = "arcsinh" -> Ln(f ++ Sqrt(((f ** f) ++ "1"))) [] k = "arccosh" -> Ln(f ++ Sqrt(((f ** f) -- "1"))) [] k = "arctanh" -> R("0.5" ** Ln(("1" ++ f) // ("1" -- f)))
    [] k \in {"fabs", "abs"} -> Abs(f)
    [] k = "rdivk" -> (a.s // f) [] k = "pow" -> (Exp(a.s ** Ln(f)))
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "init" ->
         IF ~(IsSeq(o) /\ Len(o) = 2 /\ IsObs(o[1]) /\ IsObs(o[2])) THEN [st |-> s, bad |-> {"Answers"}]
         ELSE [st |-> [f |-> o[1].c, g |-> o[2].c, lo |-> a.lo, hi |-> a.hi],
               bad |-> Broken(Shows(o[1], Ser(a.cf), a.lo, a.hi, "1e-13")) \union Broken(Shows(o[2], Ser(a.cg), a.lo, a.hi, "1e-13"))]
    [] e.op = "step" ->
         \* sampling may not resolve a function whose interval lies far from zero
         IF ErrIs(o, "NoConvergence") /\ e.k \in {"mul", "pow2", "pow3", "restrict"} /\ (Kappa(s.lo, s.hi, 3*Len(s.f) + Len(s.g)) \succ "5") THEN [st |-> s, bad |-> {}]
         ELSE IF ~(IsSeq(o) /\ Len(o) = 2 /\ IsObs(o[1]) /\ IsObs(o[2])) THEN [st |-> s, bad |-> {"Answers"}]
         ELSE LET r == e.k = "restrict"  lo == IF r THEN a.lo2 ELSE s.lo hi == IF r THEN a.hi2 ELSE s.hi
                  x == StepF(s, e)  t == StepTol(s, e, x)
                  y == IF e.k = "swap" THEN Ser(s.f) ELSE IF r THEN ToCheb(RX(ChebPoly(s.g), s.lo, s.hi, lo, hi)) ELSE Ser(s.g)
                  small == (Size(x) \prec "5") /\ (Size(s.f) \prec "5") /\ (Kappa(lo, hi, Len(x)) \prec "20")
              IN [st |-> [f |-> o[1].c, g |-> o[2].c, lo |-> lo, hi |-> hi],
                  bad |-> Broken(Shows(o[1], x, lo, hi, t)) \union Broken(Shows(o[2], y, lo, hi, IF r THEN t ELSE R("0")))
                          \union (IF small /\ e.k # "swap" /\ Len(o[1].c) > Len(x) THEN {"Trimmed"} ELSE {})]
    [] e.op = "make" ->
         LET k == e.k  n == Len(a.v)  vk == k \in {"scalar", "values", "array"}
             x == IF k = "identity" THEN <<Mid(a.lo, a.hi), QMul(Half, Width(a.lo, a.hi))>> ELSE IF k = "scalar" THEN <<Q(a.v[1])>> ELSE Ser(a.c) IN
         IF ~IsObs(o) THEN Stateless([Answers |-> FALSE])
         ELSE IF k \in {"values", "array"} THEN
           Stateless([Domain |-> REq(o.dom[1], a.lo) /\ REq(o.dom[2], a.hi), Values |-> o.vals = a.v /\ o.n = n,
                      Interpolates |-> LET p == ChebPoly(o.c) IN \A i \in 1 .. n : CloseA(ToR(QHorner(p, Q(IF n = 1 THEN R("0") ELSE Cos((("3.14159265358979323846" ** R(i -- "1")) // R(n -- "1")))))), a.v[i], "0", "1e-13"),
                      Itself |-> Broken(Obs(o)) = {}])
         ELSE LET b == Shows(o, x, a.lo, a.hi, R("1e-13" ** ((("1" ++ Abs(a.lo)) ++ Abs(a.hi)) ^^ Kappa(a.lo, a.hi, Len(x))))) IN
              [st |-> s, bad |-> Broken(b) \union (IF k = "unpruned" /\ o.n # Len(a.c) + 2 THEN {"Unpruned"} ELSE IF k # "unpruned" /\ o.n # Len(x) THEN {"Trimmed"} ELSE {})]
    [] e.op = "basis" -> LET n == a.n IN [st |-> s, bad |-> Broken(Shows(o, Eager([i \in 1 .. n + 1 |-> Q(IF i = n + 1 THEN 1 ELSE 0)]), "-1", "1", "1e-14"))]
    [] e.op = "fn" ->
         IF ~(IsRec(o) /\ Nums(o.x) /\ NumsN(o.v, Len(o.x)) /\ NumsN(o.f, Len(o.x)) /\ NumsN(o.dom, 2)) THEN Stateless([Answers |-> FALSE])
         ELSE LET p == ChebPoly(a.c) n == Len(o.x) x(i) == ToU(a.lo, a.hi, o.x[i])
                  fv == Eager([i \in 1 .. n |-> ToR(QHorner(p, x(i)))]) gv == Eager([i \in 1 .. n |-> ToR(QHorner(ChebPoly(a.cg), x(i)))])
                  W == Eager([i \in 1 .. n |-> IF e.k = "div" THEN fv[i] // gv[i] ELSE Known(e.k, a, fv[i])])
                  t == R("2e-12") ** ((R("1") ++ RMaxSeq([i \in 1 .. n |-> Abs(W[i])])) ** Kappa(a.lo, a.hi, 20)) IN
              Stateless([Domain |-> REq(o.dom[1], a.lo) /\ REq(o.dom[2], a.hi),
                         Argument |-> \A i \in 1 .. n : CloseA(o.f[i], fv[i], "0", t),
                         Pointwise |-> Len(o.v) = n /\ \A i \in 1 .. n : CloseA(o.v[i], W[i], "0", t)])
    [] e.op = "roots" ->
         LET n == Len(e.u) w == ToR(Width(a.lo, a.hi)) IN
         Stateless([AllRoots |-> NumsN(o, n) /\ \A i \in 1 .. n : CloseA(ToR(ToU(a.lo, a.hi, o[i])), e.u[i], "0", "1e-6")])
    [] e.op = "sine" ->
         LET T(x) == (((a.om ** x) ++ a.ph) // "3.14159265358979323846")  first == Floor(T(a.lo))  last == Floor(T(a.hi))  n == Truncate(last) - Truncate(first) IN
         Stateless([AllRoots |-> NumsN(o, n) /\ \A i \in 1 .. n : CloseA(T(o[i]), first ++ R(i), "0", "1e-6")])
    [] e.op = "solve" ->
         LET n == Len(e.u) IN
         IF ~(IsRec(o) /\ Has(o, "h") /\ IsObs(o.h) /\ Nums(o.r)) THEN Stateless([Answers |-> FALSE])
         ELSE [st |-> s, bad |-> Broken([AllRoots |-> Len(o.r) = n /\ \A i \in 1 .. n : CloseA(ToR(ToU(a.lo, a.hi, o.r[i])), e.u[i], "0", "1e-6")])
                 \union Broken(Shows(o.h, CAdd(a.c, <<Q(a.goal)>>), a.lo, a.hi, TolOf(Size(a.c) ++ Abs(a.goal), Kappa(a.lo, a.hi, 10))))]
    [] e.op = "resolve" ->   \* fewer roots than asked for only after as many nodes as allowed; with all of them resolved, the crossings
         LET P(u) == RSum([j \in 1 .. 2 |-> R("1" // ("1" ++ ((a.s ** (u -- a.cs[j])) ** (u -- a.cs[j]))))]) IN
         IF ~(IsRec(o) /\ Nums(o.r)) THEN Stateless([Answers |-> FALSE]) ELSE
         Stateless([Refines |-> IsRec(o) /\ (Len(o.r) < a.find => o.points >= a.N_max),
                    Inside |-> IsRec(o) /\ \A i \in 1 .. Len(o.r) : (o.r[i] \succeq a.lo) /\ (o.r[i] \preceq a.hi),
                    Crossings |-> IsRec(o) /\ (o.points > 120 /\ REq(a.s, "60") => Len(o.r) = 4 /\ \A i \in 1 .. 4 : CloseA(P(ToR(ToU(a.lo, a.hi, o.r[i]))), "0.6", "0", "1e-2"))])
    [] e.op = "vector" ->
         IF ~(IsRec(o) /\ Nums(o.x) /\ NumsN(o.sum, 2) /\ (\A q \in {o.v, o.d, o.i} : IsSeq(q) /\ Len(q) = Len(o.x) /\ \A i \in 1 .. Len(q) : NumsN(q[i], 2)) /\ IsSeq(o.parts) /\ Len(o.parts) = 2) THEN Stateless([Answers |-> FALSE])
         ELSE LET C == <<a.c, a.d>>  n == Len(o.x)  x(i) == ToU(a.lo, a.hi, o.x[i])  S == (("1" ++ ("100" // (a.hi -- a.lo))) ++ (a.hi -- a.lo)) ** Kappa(a.lo, a.hi, 6)
                  t == TolOf(Size(a.c) ++ Size(a.d), S)
                  On(k, q) == \A j \in 1 .. 2 : \A i \in 1 .. n : Len(k[i]) = 2 /\ CloseA(k[i][j], ToR(QHorner(q[j], x(i))), "0", t)
                  P == Eager([j \in 1 .. 2 |-> ChebPoly(C[j])]) IN
              [st |-> s, bad |-> Broken([Values |-> On(o.v, P), Derivative |-> On(o.d, [j \in 1 .. 2 |-> DX(P[j], a.lo, a.hi)]), Primitive |-> On(o.i, [j \in 1 .. 2 |-> IX(P[j], a.lo, a.hi)]),
                                        Integral |-> Len(o.sum) = 2 /\ \A j \in 1 .. 2 : CloseA(o.sum[j], ToR(QMul(QMul(Half, Width(a.lo, a.hi)), PSum(P[j]))), "0", t)])
                       \union UNION {Broken(Shows(o.parts[j], Ser(C[j]), a.lo, a.hi, t)) : j \in 1 .. 2}]
    [] e.op = "convert" ->
         IF ~(IsRec(o) /\ Nums(o.x) /\ Nums(o.u) /\ Nums(o.p) /\ NumsN(o.text, Len(o.x)) /\ NumsN(o.range, 2) /\ NumsN(o.rtext, Len(o.x))) THEN Stateless([Answers |-> FALSE])
         ELSE LET p == ChebPoly(a.c)  l == LinU(a.lo, a.hi)  b == ToR(QHorner(PAbs(p), Q(1)))  n == Len(o.x)
                  px == PComp(p, l)  mx == PComp(PAbs(p), PAbs(l))  t == R("1e-13" ** ("1" ++ b)) ** Kappa(a.lo, a.hi, Len(p)) IN
              Stateless([InU |-> Len(o.u) = Len(p) /\ \A i \in 1 .. Len(p) : CloseA(o.u[i], ToR(p[i]), "0", R("1e-14" ** ("1" ++ b))), InX |-> Len(o.p) = Len(px) /\ \A i \in 1 .. Len(px) : CloseA(o.p[i], ToR(px[i]), "0", R("1e-12") ** ToR(mx[i])),
                         Text |-> \A i \in 1 .. n : CloseA(o.text[i], ToR(QHorner(p, ToU(a.lo, a.hi, o.x[i]))), "0", t),
                         Range |-> LET h == o.range IN \A i \in 1 .. n : LET u == ToR(ToU(a.lo, a.hi, o.x[i])) IN CloseA(h[2] ** (o.x[i] ++ h[1]), u, "0", R("1e-14") ** Kappa(a.lo, a.hi, 10)) /\ CloseA(o.rtext[i], u, "0", R("1e-14") ** Kappa(a.lo, a.hi, 10))])
    [] e.op = "dot" ->
         LET I(p) == ToR(QMul(QMul(Half, Width(a.lo, a.hi)), PSum(p)))  F == ChebPoly(a.c) G == ChebPoly(a.cg)  N2 == I(PMul(F, F))
             t == TolOf((Size(a.c) ++ Size(a.cg)) ** (Size(a.c) ++ Size(a.cg)), Kappa(a.lo, a.hi, 10)) ** ToR(Width(a.lo, a.hi)) IN
         Stateless([Product |-> NumsN(o, 2) /\ CloseA(o[1], I(PMul(F, G)), "0", t), Norm |-> NumsN(o, 2) /\ CloseA(o[2] ** o[2], N2, "0", t) /\ (o[2] \succeq "0")])
    [] e.op = "equal" ->
         LET d == RMaxSeq([i \in 1 .. Len(a.c) |-> Abs((a.c[i] -- a.c2[i]))])  same == d \prec "1e-9" IN
         Stateless([Equality |-> IsSeq(o) /\ Len(o) = 6 /\ o[1] = same /\ o[2] = ~same /\ o[3] = same /\ o[4] = ~same, Scalar |-> IsSeq(o) /\ Len(o) = 6 /\ o[5] = (Len(a.c) = 1), NotZero |-> IsSeq(o) /\ Len(o) = 6 /\ o[6] = TRUE])
    [] e.op = "refuse" -> Stateless([Refused |-> CASE e.k \in {"add", "mul", "sub", "div"} -> ErrIs(o, "DomainMismatch") [] e.k \in {"below", "above"} -> ErrIs(o, "ValueError") [] e.k = "type" -> ErrIs(o, "TypeError") [] OTHER -> ErrIs(o, "NoConvergence")])
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
