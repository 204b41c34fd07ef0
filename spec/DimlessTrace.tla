---------------------------- MODULE DimlessTrace ----------------------------
EXTENDS TraceBase, Dimless
\* Abstract state: the value of the group before the client changed units.
MyInit(e) == [none |-> 0]
MyStep(s, e) ==
  LET n == e.op IN
  IF Has(e, "refused") THEN [st |-> s, bad |-> Broken([RefusesInsufficientInputs |-> ErrIs(e.out, "ValueError")])]
  ELSE IF n \in DimNames THEN [st |-> s, bad |-> Broken([Definition |-> Close(e.out, DefDim(n, e.a), "1e-9")])]
  ELSE LET cl == [ Definition |-> Close(e.out, Def(n, e.a), "1e-9"),
                   UnitIndependent |-> Has(s, "v") => Close(e.out, s.v, "1e-9") ]
       IN [st |-> IF Has(s, "v") THEN s ELSE [v |-> e.out], bad |-> Broken(cl)]
=============================================================================
