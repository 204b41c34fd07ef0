---------------------------- MODULE GasPipeTrace ----------------------------
EXTENDS TraceBase, GasPipe
\* Abstract state: the pipeline, as the client started with it.
MyInit(e) == [none |-> 0]
Name(n, u) == IF u = "Q" /\ n = "isothermal_gas" THEN "m" ELSE u
MyStep(s, e) ==
  IF e.op = "refused" THEN [st |-> s, bad |-> Broken([RefusesUndetermined |-> ErrIs(e.out, "ValueError")])]
  ELSE LET n == e.eq  u == e.u  a == e.a
           \* all arguments, with the answer in place of the unknown
           full == [k \in DOMAIN a \union {u} |-> IF k = u THEN e.out ELSE a[k]]
           flow == IF u = "Q" THEN e.out ELSE Get(a, Name(n, "Q"))
           rel == CASE n = "isothermal_gas" /\ u = "L" -> "1" ++ ((("2" ** Ln(a.P1 // a.P2)) ** a.D) // (a.fd ** Abs(e.out)))
                    [] OTHER -> R("1")
           pre == IF n = "isothermal_gas" THEN [P |-> Choked(full, "1e-5")] ELSE [P |-> FALSE]
       IN [st |-> s, bad |-> Broken([
             SatisfiesRelation |-> Close(Flow(n, full), flow, "1e-7" ** rel),
             SamePipeline |-> Has(e, "truth") => CloseA(e.out, e.truth, (IF u = "Q" THEN "1e-7" ELSE e.tol), "0"),
             NotChoked |-> ~pre.P,
             Downhill |-> full.P1 \succeq full.P2])]
============================================================================
