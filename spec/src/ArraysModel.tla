---------------------------- MODULE ArraysModel ----------------------------
(* Every public function called with arrays of every pair of shapes.         *)
EXTENDS Api, TraceIO
CONSTANT Tier
VARIABLES a, b, f
vars == <<a, b, f>>
Shapes == {<<>>, <<1>>, <<3>>, <<2, 1>>, <<1, 3>>, <<2, 3>>, <<2, 2, 1>>}
Init == a \in Shapes /\ b \in Shapes /\ f = 0
Next == f < Len(Api) /\ Fits(a, b) /\ f' = f + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Res == Broadcast(a, b)
Laws == (f = 0 /\ Fits(a, b)) =>
          /\ Fits(b, a) /\ Res = Broadcast(b, a) /\ Broadcast(Res, a) = Res /\ Broadcast(Res, Res) = Res
          /\ Broadcast(a, <<>>) = a
          /\ Reads(Res, Res) = [k \in 1 .. Size(Res) |-> k]
          /\ \A k \in 1 .. Size(Res) : Meets(a, Res, k) \in 1 .. Size(a)
          /\ {Meets(a, Res, k) : k \in 1 .. Size(Res)} = 1 .. Size(a)
Cross == LET p == <<2, 1>> q == <<1, 3>> r == Broadcast(p, q) IN r = <<2, 3>> /\ Reads(p, r) = <<1, 1, 1, 2, 2, 2>> /\ Reads(q, r) = <<1, 2, 3, 1, 2, 3>>
\* in the quick tier each function meets a few pairs of shapes in turn
Ord(s) == CASE s = <<>> -> 0 [] s = <<1>> -> 1 [] s = <<3>> -> 2 [] s = <<2, 1>> -> 3 [] s = <<1, 3>> -> 4 [] s = <<2, 3>> -> 5 [] OTHER -> 6
Due == Fits(a, b) /\ f > 0 /\ (Tier = "thorough" \/ (Ord(a)*7 + Ord(b) + f*5) % 8 = 0)
Plain(x) == x.ret \in {"number", "tuple", "str", "bool"} /\ \A i \in DOMAIN x.args : x.args[i].k # "l"
Emit == /\ (Due /\ Plain(Api[f])) => EmitPlan([cell |-> <<"grid", f, a, b>>, m |-> "grid", x |-> Api[f], sa |-> a, sb |-> b, r |-> Res, ia |-> Reads(a, Res), ib |-> Reads(b, Res)])
        /\ (a = <<>> /\ b = <<>> /\ f > 0) => (Plain(Api[f]) => EmitPlan([cell |-> <<"whole", f>>, m |-> "whole", x |-> Api[f]]))
        /\ (a = <<>> /\ b = <<>> /\ f > 0) => (Plain(Api[f]) => EmitPlan([cell |-> <<"wide", f>>, m |-> "wide", x |-> Api[f]]))
=============================================================================
