---------------------------- MODULE ArraysTrace ----------------------------
EXTENDS TraceBase, Api
MyInit(e) == [n |-> 0]
Agree(x, y) == IF IsNum(x) /\ IsNum(y) THEN CloseA(x, y, "1e-8", "1e-300") ELSE x = y
\* one result array: its shape and its elements in row-major order, against the plain results
Array(o, r, want) == [ Shape |-> o.shape = r, Elements |-> (Len(o.items) = Len(want)) /\ \A k \in DOMAIN want : Agree(o.items[k], want[k]) ]
Both(x, y) == [k \in DOMAIN x |-> x[k] /\ y[k]]
RECURSIVE All(_, _, _, _)
All(o, r, plain, j) == LET x == Array(o[j], r, [k \in DOMAIN plain |-> plain[k][j]]) IN IF j = Len(o) THEN x ELSE Both(x, All(o, r, plain, j + 1))
MyStep(s, e) ==
  LET o == e.out
      r == IF e.op = "grid" THEN Broadcast(e.sa, e.sb) ELSE <<Len(e.plain)>> IN
  CASE e.op \in {"grid", "wide"} ->
         IF IsErr(o) THEN Stateless([Answers |-> FALSE])
         ELSE IF e.tuple THEN (IF Len(o) = Len(e.plain[1]) THEN Stateless(All(o, r, e.plain, 1)) ELSE Stateless([Answers |-> FALSE]))
         ELSE Stateless(Array(o, r, e.plain))
    [] e.op = "skipped" -> Stateless([Examples |-> TRUE])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
