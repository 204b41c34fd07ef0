------------------------------ MODULE PsdTrace ------------------------------
EXTENDS TraceBase, Psd
MyInit(e) == <<>>
N0(a) == IF Has(a, "n") THEN a.n ELSE "None"
Tol(e) == IF e.p.kind = "rr" THEN "1e-8" ELSE "1e-9"
\* a cut deep in a tail is known only to the cancellation of the two distribution values there
Fresh(e) == IF Has(e, "fresh") THEN CloseA(e.out, e.fresh, "1e-13", "0") \/ (Same(e.out, e.fresh)) ELSE TRUE
Rises(s) == \A i \in 1 .. Len(s) - 1 : s[i] \preceq (s[i + 1] ++ "1e-12")
Unit(x) == x \succeq "-1e-12" /\ x \preceq R("1" ++ "1e-9")
Sized(o, n) == IsSeq(o) /\ Len(o) = n
Diffs(s) == [i \in 1 .. Len(s) |-> IF i = 1 THEN s[1] ELSE s[i] -- s[i-1]]
Cont(e, a, o) ==
  LET p == e.p  n == N0(a) IN
  CASE e.op = "pdf" -> [Density |-> CloseA(o, Pdf(p, a.d, n), Tol(e), "0"), HistoryFree |-> Fresh(e)]
    [] e.op = "cdf" -> [Distribution |-> CloseA(o, Cdf(p, a.d, n), Tol(e), "1e-10"), Fraction |-> Unit(o), HistoryFree |-> Fresh(e)]
    [] e.op = "delta" -> [Difference |-> CloseA(o, Cdf(p, a.d_max, n) -- Cdf(p, a.d_min, n), "1e-8", "1e-10")]
    [] e.op = "dn" -> IF a.fraction \prec "0" \/ a.fraction \succ "1" THEN [Refuses |-> ErrIs(o, "ValueError")]
                      ELSE IF REq(a.fraction, "0") THEN [Inverse |-> REq(o, Cut(p).lo)]
                      ELSE [Inverse |-> IsNum(o) /\ CloseA(Cdf(p, o, n), a.fraction, "1e-7", "1e-10"), InRange |-> o \succeq Cut(p).lo /\ o \preceq Cut(p).hi]
    [] e.op = "cdfs" -> [Distribution |-> Sized(o, Len(a.ds)) /\ CloseSeq(o, [i \in 1 .. Len(a.ds) |-> Cdf(p, a.ds[i], n)], "1e-8", "1e-10"), Rises |-> IsSeq(o) /\ Rises(o)]
    [] e.op = "fracs" -> [Fractions |-> Sized(o, Len(a.ds)) /\ CloseSeq(o, Diffs([i \in 1 .. Len(a.ds) |-> Cdf(p, a.ds[i], n)]), "1e-7", "1e-10")]
    [] e.op = "mean" -> [Moment |-> CloseA(o, Mean(p, a.p, a.q), IF REq(a.p, a.q) THEN "1e-4" ELSE "1e-7", "0")]
    [] e.op = "iso" -> [Moment |-> CloseA(o, Mean(p, (a.k ++ a.r), a.r), IF REq(a.k, "0") THEN "1e-4" ELSE "1e-7", "0")]
    [] e.op = "vssa" -> [Surface |-> CloseA(o, R("6" // Mean(p, R("3"), R("2"))), "1e-7", "0")]
    [] e.op = "ds" -> LET lim == IF Has(a, "limit") THEN a.limit ELSE R("1e-9")  k == IF Has(a, "pts") THEN a.pts ELSE 20
                          lo == IF Has(a, "d_min") THEN a.d_min ELSE o[1]  hi == IF Has(a, "d_max") THEN a.d_max ELSE o[Len(o)] IN
                      IF ~Sized(o, k) THEN [Count |-> FALSE] ELSE
                      [Spaced |-> CloseSeq(o, IF Has(a, "method") THEN IF a.method = "linear" THEN LinSpace(lo, hi, k) ELSE LogSpace(lo, hi, k) ELSE LogSpace(lo, hi, k), "1e-8", "0"),
                       From |-> Has(a, "d_min") \/ CloseA(Cdf(p, o[1], "None"), lim, "1e-5", "1e-12"), To |-> Has(a, "d_max") \/ CloseA(Cdf(p, o[k], "None"), R("1" -- lim), "0", "1e-11")]
Rec(o, k) == IF Has(o, k) THEN Get(o, k) ELSE "missing"
Disc(e, a, o) ==
  LET q == e.q  v == Volume(q)  IN
  CASE e.op = "attrs" -> [Classes |-> o.size_classes = Classes(q) /\ REq(o.N, R(Len(q.f))), Volume |-> CloseSeq(o.fractions, v, "1e-10", "1e-14"), Number |-> CloseSeq(o.number_fractions, InBasis(q, R("0")), "1e-10", "1e-14"),
                          Length |-> CloseSeq(o.length_fractions, InBasis(q, R("1")), "1e-10", "1e-14"), Area |-> CloseSeq(o.area_fractions, InBasis(q, R("2")), "1e-10", "1e-14"),
                          Cumulative |-> CloseSeq(o.fraction_cdf, Tail(CumSum(v)), "1e-10", "1e-14") /\ CloseSeq(o.volume_cdf, Tail(CumSum(v)), "1e-10", "1e-14") /\ CloseSeq(o.area_cdf, Tail(CumSum(InBasis(q, R("2")))), "1e-10", "1e-14")
                                         /\ CloseSeq(o.length_cdf, Tail(CumSum(InBasis(q, R("1")))), "1e-10", "1e-14") /\ CloseSeq(o.number_cdf, Tail(CumSum(InBasis(q, R("0")))), "1e-10", "1e-14"),
                          Whole |-> \A s \in {o.fractions, o.number_fractions, o.length_fractions, o.area_fractions} : CloseA(RSum(s), "1", "1e-10", "0"),
                          Sizes |-> CloseSeq(o.Dis, [i \in 1 .. Len(q.f) |-> DPow(q, i, R("1"))], "1e-11", "0")]
    [] e.op = "dpow" -> [Power |-> CloseA(o, DPow(q, a.i + 1, IF Has(a, "power") THEN a.power ELSE R("1")), "1e-9", "0")]
    [] e.op = "mean" -> [Moment |-> CloseA(o, DMean(q, a.p, a.q), "1e-8", "0")]
    [] e.op = "iso" -> [Moment |-> CloseA(o, DMean(q, (a.k ++ a.r), a.r), "1e-8", "0")]
    [] e.op = "vssa" -> [Surface |-> CloseA(o, DVssa(q), "1e-9", "0")]
    [] e.op = "pdf" -> IF REq(N0(a), "3") \/ Same(N0(a), "None") THEN [Density |-> CloseA(o, DPdf(q, a.d), "1e-8", R("1e-12" ** ("1" // q.ds[1]))), HistoryFree |-> Fresh(e)] ELSE [HistoryFree |-> Fresh(e), Nonnegative |-> o \succeq "0"]
    [] e.op = "cdf" -> IF REq(N0(a), "3") \/ Same(N0(a), "None") THEN [Distribution |-> CloseA(o, DCdf(q, a.d), "1e-9", "1e-11"), Fraction |-> Unit(o), HistoryFree |-> Fresh(e)] ELSE [HistoryFree |-> Fresh(e)]
    [] e.op = "cdfs" -> IF ~(REq(N0(a), "3") \/ Same(N0(a), "None")) THEN [Ends |-> IsSeq(o) /\ Len(o) = Len(a.ds) /\ CloseA(o[Len(o)], "1", "1e-9", "0")] ELSE [Rises |-> IsSeq(o) /\ Len(o) = Len(a.ds) /\ Rises(o), Ends |-> CloseA(o[Len(o)], "1", "1e-9", "0"), Fraction |-> \A i \in 1 .. Len(o) : Unit(o[i])]
    [] e.op = "dn" -> [Inverse |-> IsNum(o) /\ CloseA(DCdf(q, o), a.fraction, "1e-7", "1e-9")]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE Has(e, "p") -> Stateless(Cont(e, a, o))
    [] Has(e, "q") -> Stateless(Disc(e, a, o))
    [] e.op = "fn" -> Stateless([Formula |-> LET p == [kind |-> e.kind, a |-> IF e.kind = "rr" THEN a.k ELSE a.d_characteristic, b |-> IF e.kind = "lognormal" THEN a.s ELSE a.m] IN
                                   CASE e.what = "pdf" -> CloseA(o, Pdf0(p, a.d), "1e-9", "0") [] e.what = "cdf" -> CloseA(o, Cdf0(p, a.d), "1e-9", "1e-14")])
    [] e.op = "basis" -> Stateless([Antiderivative |-> LET p == [kind |-> e.kind, a |-> IF e.kind = "rr" THEN a.k ELSE a.d_characteristic, b |-> IF e.kind = "lognormal" THEN a.s ELSE a.m]
                                                       m == Moment(p, a.n, a.d0, a.d1) IN CloseA(o, m, "1e-8", R("1e-13" ** e.scale))])
    [] e.op = "custom" -> Stateless([Agrees |-> CloseA(o, CASE e.what = "pdf" -> Pdf(e.law, a.d, N0(a)) [] e.what = "cdf" -> Cdf(e.law, a.d, N0(a)) [] e.what = "mean" -> Mean(e.law, a.p, a.q), "1e-5", "1e-6")])
    [] e.op = "spacing" -> Stateless(CASE e.how \in {"linear", "logarithmic"} -> [Spaced |-> CloseSeq(o, IF e.how = "linear" THEN LinSpace(a.d_min, a.d_max, a.pts) ELSE LogSpace(a.d_min, a.d_max, a.pts), "1e-9", "0")]
                               [] e.how = "renard" -> [Spaced |-> CloseSeq(o, IF Has(a, "d_min") THEN RenardUp(a.d_min, e.r, a.pts) ELSE RenardDown(a.d_max, e.r, a.pts), "1e-9", "0")]
                               [] OTHER -> [Sieves |-> IsSeq(o) /\ CloseSeq(o, Sieves(e.how, a.d_min, a.d_max), "1e-12", "0")])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "sieve" -> Stateless([Opening |-> CloseA(o.opening, R(o.designation) // R("1000"), "1e-12", "0"), Named |-> e.key = o.designation])
    [] e.op = "wire" -> Stateless([WireScale |-> (o.d_wire // o.opening) \succ "0.04" /\ (o.d_wire // o.opening) \prec "2"])
    [] e.op = "series" -> Stateless([Series |-> CloseSeq(o, Open(e.name), "1e-12", "0")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
