----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS TraceBase, Units
MyInit(e) == [n |-> 0]
RECURSIVE Agree(_, _, _, _, _, _)
\* a magnitude in base units against the plain number (true or false count as 1 or 0) in the unit it is documented in;
\* p and q are the plain results a rounding error away
IsQ(x) == Has(x, "d")
Spread(w, p, q) == $[ abs(w - p) + abs(w - q) ]
Agree(m, u, w, p, q, k) ==
  IF IsSeq(m) THEN Len(m) = Len(w) /\ \A i \in DOMAIN m : Agree(m[i], u, w[i], p[i], q[i], k)
  ELSE IF IsNum(w) /\ IsNum(m) THEN LET s == IF u \in DOMAIN UnitOf THEN UnitOf[u].s ELSE "1" IN CloseA(m, IF u \in DOMAIN UnitOf THEN Base(w, u) ELSE w, "1e-8", $[ 1e-300 + k*Spread(w, p, q)*s ])
  ELSE FALSE
\* one result: quantities carry the dimensions of the documented unit; names, yes or no and nothing are passed as they are
Decibel(u) == u \in {"dB", "decibels"}
Result(o, u, w, p, q) ==
  IF IsErr(o) THEN [Answers |-> FALSE]
  ELSE IF ~IsQ(o) THEN [Answers |-> ~IsNum(w), Names |-> o = w]
  ELSE IF Decibel(u) THEN [Answers |-> TRUE, Dimension |-> o.n = "decibel", Value |-> Agree(o.v, u, w, p, q, "8")]
  ELSE [Answers |-> TRUE, Dimension |-> o.d = UnitOf[u].d, Value |-> Agree(o.m, u, w, p, q, "8")]
Both(x, y) == [k \in DOMAIN x \cup DOMAIN y |-> (k \notin DOMAIN x \/ x[k]) /\ (k \notin DOMAIN y \/ y[k])]
RECURSIVE Each(_, _, _, _, _, _)
Each(o, us, w, p, q, i) == LET x == Result(o[i], us[i], w[i], p[i], q[i]) IN IF i = Len(o) THEN x ELSE Both(x, Each(o, us, w, p, q, i + 1))
Several(o, us, w, p, q) ==
  IF IsErr(o) THEN [Answers |-> FALSE]
  ELSE IF IsQ(o) THEN Result(o, us[1], w, p, q)
  ELSE IF IsSeq(o) THEN (IF Len(o) = Len(w) THEN (IF Len(o) = 0 THEN [Answers |-> TRUE] ELSE IF Len(us) >= Len(o) THEN Each(o, us, w, p, q, 1) ELSE [Answers |-> \A i \in DOMAIN o : ~IsQ(o[i]) /\ o[i] = w[i]]) ELSE [Answers |-> FALSE])
  ELSE Result(o, us[1], w, p, q)
\* what was handed over is what the plain function was given: magnitude and unit against the documented unit
Handed(q) == \A i \in DOMAIN q : q[i].u = "raw" \/ CloseA(Convert(q[i].m, q[i].u, q[i].doc), q[i].v, "1e-12", "1e-300")
Call(e) == Both([Handed |-> Handed(e.q)],
  CASE e.ret \in {"number", "bool", "str"} -> Result(e.out, e.want[1], e.plain, e.near[1], e.near[2])
    [] OTHER -> Several(e.out, e.want, e.plain, e.near[1], e.near[2]))
Read(e) == IF e.want = "name" THEN [Names |-> IsQ(e.out) => FALSE, Same |-> ~IsQ(e.out) /\ e.out = e.plain] ELSE Result(e.out, e.want, e.plain, e.near[1], e.near[2])
MyStep(s, e) ==
  CASE e.op \in {"call", "array"} -> Stateless(Call(e))
    [] e.op = "jet" -> Stateless(IF IsErr(e.out) THEN [Answers |-> FALSE] ELSE [Answers |-> Len(e.out) = Len(e.want), Dimension |-> \A i \in DOMAIN e.out : IsQ(e.out[i]) /\ e.out[i].d = UnitOf[e.want[i]].d,
                                   Given |-> \A i \in DOMAIN e.given : Close(e.out[e.given[i].i].m, e.given[i].v, "1e-9")])
    [] e.op = "wrong" -> Stateless([Refuses |-> ErrIs(e.out, "ValueError")])
    [] e.op = "bare" -> Stateless([Refuses |-> ErrIs(e.out, "TypeError")])
    [] e.op = "made" -> Stateless([Answers |-> ~IsErr(e.out), Handed |-> Handed(e.q)])
    [] e.op = "read" -> Stateless(Read(e))
    [] e.op = "method" -> Stateless(Both([Handed |-> Handed(e.q)], Read(e)))
    [] e.op = "skipped" -> Stateless([Examples |-> TRUE])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
