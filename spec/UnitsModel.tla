----------------------------- MODULE UnitsModel -----------------------------
(* The calls with units: every function and object, the units of its         *)
(* arguments chosen round the alternatives of the quantities they measure.   *)
EXTENDS FiniteSets, Units, TraceIO
CONSTANT Tier
VARIABLES f, r
vars == <<f, r>>
Rounds == IF Tier = "thorough" THEN 12 ELSE 2
Init == f = 0 /\ r = 0
Next == \/ f < Len(Api) + Len(Objects) /\ r = 0 /\ f' = f + 1 /\ r' = 0
        \/ f > 0 /\ r < Rounds /\ r' = r + 1 /\ f' = f
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* laws of the unit table: what measures the same quantity has the same dimensions, conversion goes there and back and composes
TableLaws == f = 0 => \A i \in DOMAIN Units : LET a == Units[i].n IN
     /\ Units[i].s \succ "0" /\ UnitOf[a] = Units[i]
     /\ \A j \in DOMAIN Units : LET b == Units[j].n IN Units[i].q = Units[j].q =>
          /\ Alike(a, b) /\ Close(Convert(Convert("1.7", a, b), b, a), "1.7", "1e-9")
          /\ \A k \in DOMAIN Alts(a) : Close(Convert(Convert("1.7", a, b), b, Alts(a)[k].n), Convert("1.7", a, Alts(a)[k].n), "1e-9")
\* every documented unit is known, and the units of a result can be told
Known == (f > 0 /\ f <= Len(Api)) => LET x == Api[f] IN
     /\ \A i \in DOMAIN x.args : x.args[i].u \in DOMAIN UnitOf
     /\ x.ret \in {"number", "tuple", "list", "dict"} => \A i \in DOMAIN ResultUnits(x) : ResultUnits(x)[i] \in DOMAIN UnitOf \/ ResultUnits(x)[i] \in {"dB", "decibels"}
-----------------------------------------------------------------------------
Undocumented == {"Cv_char_linear", "Cv_char_equal_percentage", "Cv_char_quick_opening", "time_v_terminal_Stokes"}
Alt(u, k) == LET s == Alts(u) IN s[(k % Len(s)) + 1]
Pick(args, k) == [i \in DOMAIN args |-> Alt(args[i].u, f + k*(2*i + 1) + i)]
Doc(args) == [i \in DOMAIN args |-> UnitOf[args[i].u]]
Dims(args) == {i \in DOMAIN args : args[i].u # "dimensionless" /\ args[i].k \in {"n", "i"}}
Nth(S, k) == LET n == Cardinality(S) IN CHOOSE i \in S : Cardinality({j \in S : j < i}) = k % n
Scalars(x) == x.ret \in {"number", "tuple", "bool"} /\ (\A i \in DOMAIN x.args : x.args[i].k # "l") /\ x.f # "liquid_jet_pump"
Job(m, args) == [cell |-> <<m, f, r>>, m |-> m, args |-> args]
Emit ==
  IF f > 0 /\ r > 0 /\ f <= Len(Api) /\ Api[f].f \notin Undocumented
  THEN LET x == Api[f] a == x.args D == Dims(a)
           J(m) == Job(m, a) @@ [f |-> x.f, ret |-> x.ret, want |-> ResultUnits(x), us |-> Pick(a, r), doc |-> Doc(a), names |-> IF x.ret = "dict" THEN JetNames ELSE <<>>] IN
       /\ EmitPlan(J("call") @@ [pos |-> (r + f) % 2 = 0])
       /\ (Scalars(x) /\ (r = 1 \/ Tier = "thorough")) => EmitPlan(J("array"))
       /\ (D # {} /\ (r = 1 \/ Tier = "thorough")) =>
            LET i == Nth(D, f + r) IN EmitPlan(J("refuse") @@ [arg |-> a[i].n, wrong |-> IF UnitOf[a[i].u].d = UnitOf["Pa"].d THEN "m" ELSE "Pa"])
  ELSE IF f > Len(Api) /\ r > 0
  THEN LET x == Objects[f - Len(Api)] IN
       EmitPlan([cell |-> <<"object", f - Len(Api), r>>, m |-> "object", x |-> x, us |-> Pick(x.args, r), doc |-> Doc(x.args),
                 cus |-> [i \in DOMAIN x.calls |-> [us |-> Pick(x.calls[i].args, r + i), doc |-> Doc(x.calls[i].args)]]])
  ELSE TRUE
=============================================================================
