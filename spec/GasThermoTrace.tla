--------------------------- MODULE GasThermoTrace ---------------------------
EXTENDS TraceBase, GasThermo
\* Abstract state: the condition reached along the path.
MyInit(e) == [none |-> 0]
Ok(s, bad) == [st |-> s, bad |-> bad]
Dflt(a) == [k \in DOMAIN a \union {"Z", "eta"} |-> IF k \in DOMAIN a THEN a[k] ELSE R("1")]
MyStep(s, e) ==
  CASE e.op = "refused" -> Ok(s, Broken([RefusesUndetermined |-> ErrIs(e.out, "ValueError")]))
    [] e.op = "is_critical" -> LET p == PCrit([P |-> e.a.P1, k |-> e.a.k]) IN
         Ok(s, Broken([CriticalFlow |-> IF Close(p, e.a.P2, "1e-13") THEN IsBool(e.out) ELSE IF e.a.P2 \prec p THEN IsTrue(e.out) ELSE IsFalse(e.out)]))
    [] e.op = "critical_isothermal" -> LET x == (e.a.P // e.out) ** (e.a.P // e.out)  C == (e.a.fd ** e.a.L) // e.a.D IN
         Ok(s, Broken([ChokingCondition |-> CloseA((x -- "1") -- Ln(x), C, "1e-6", "1e-12"), ChokingDownstream |-> e.out \succ "0" /\ e.out \prec e.a.P]))
    [] OTHER -> LET a == Dflt(e.a)  v == Val(e.op, e.u, a)  cl == [Relation |-> CloseA(e.out, v, "1e-9", Get(e, "atol")), Inverts |-> Has(e, "truth") => Close(e.out, e.truth, "1e-7")] IN
         IF e.op = "isothermal_work" /\ Has(e, "total")
         THEN Ok(s, Broken(cl) \union Broken([WorkAdds |-> Close(e.out, s.w, "1e-9")]))
         ELSE IF e.op = "isothermal_work" THEN Ok([w |-> IF Has(s, "w") THEN s.w ++ e.out ELSE e.out], Broken(cl))
         ELSE Ok(s, Broken(cl))
=============================================================================
