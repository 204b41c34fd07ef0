------------------------------ MODULE ConvModel ------------------------------
(* The conversion machine over exact rationals (temperature) and over paths: *)
(* every path of conversions of length up to Depth is explored; composing    *)
(* them in the model is path independent.  Each complete path is a test.     *)
EXTENDS Conv, TraceIO
CONSTANT Tier
VARIABLES fam, path, at, val
vars == <<fam, path, at, val>>
Depth == IF Tier = "quick" THEN 4 ELSE 6

T0 == {Q("0"), Q("5463/20"), Q("1000/3"), Q("1"), Q("5000")}   \* Kelvin
ctx == [fam |-> "temp", D |-> "1", L |-> "1", fd |-> "1", rho |-> "1", g |-> "1"]

Init == \E f \in Family : \E n \in Nodes(f) :
          /\ fam = f /\ path = <<n>> /\ at = n
          /\ IF f = "temp" THEN \E x \in T0 : val = [canon |-> x, v |-> FromCanon(n, x, ctx)]
             ELSE val = [canon |-> Q("0"), v |-> Q("0")]
Next == /\ Len(path) <= Depth
        /\ \E e \in Edges : /\ e[1] = fam /\ e[2] = at
                            /\ at' = e[3]
                            /\ path' = Append(path, e[3])
                            /\ val' = IF fam = "temp" THEN [val EXCEPT !.v = FromCanon(e[3], ToCanon(at, val.v, ctx), ctx)] ELSE val
        /\ fam' = fam
Spec == Init /\ [][Next]_vars

\* Path independence, exactly: what the client holds depends on where it is, not on how it came there.
PathIndependent == fam = "temp" => (QIs(val.v) /\ val.v = FromCanon(at, val.canon, ctx))
Emit == IF (Len(path) = Depth + 1 \/ at = "L") /\ Len(path) > 1 /\ (fam = "temp" => val.canon = Q("1")) THEN EmitPlan([cell |-> <<fam, path>>, fam |-> fam, path |-> path]) ELSE TRUE
=============================================================================
