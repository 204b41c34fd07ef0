--------------------------- MODULE CompiledTrace ---------------------------
EXTENDS TraceBase, Api
MyInit(e) == [n |-> 0]
RECURSIVE Agree(_, _)
Agree(x, y) == IF IsNum(x) /\ IsNum(y) THEN CloseA(x, y, "1e-6", "1e-12")
               ELSE IF IsSeq(x) /\ IsSeq(y) THEN Len(x) = Len(y) /\ \A k \in DOMAIN x : Agree(x[k], y[k])
               ELSE x = y
MyStep(s, e) ==
  CASE e.op = "compiled" -> Stateless([SameAsPlain |-> Agree(e.out, e.plain)])
    [] e.op = "refused" -> Stateless([Refuses |-> IsErr(e.out)])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
