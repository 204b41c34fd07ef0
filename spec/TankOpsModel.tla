---------------------------- MODULE TankOpsModel ----------------------------
(* The client protocol of a vessel object.  Abstractly the object keeps the   *)
(* resolution of its table (0: not built) and whether its Chebyshev           *)
(* approximation exists; queries build what they need and no query changes    *)
(* the answer of another one.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO
CONSTANT Tier
VARIABLES table, cheb, path
vars == <<table, cheb, path>>
Depth == IF Tier = "quick" THEN 3 ELSE 4
Ops == {"volume", "level exact", "level spline", "volume cheb", "level cheb", "surface", "table 37", "table dx", "cheb", "area"}
Default == 100
Effect(op) == CASE op = "level spline" -> <<IF table = 0 THEN Default ELSE table, cheb>>
                [] op \in {"volume cheb", "level cheb", "cheb"} -> <<table, TRUE>>
                [] op = "table 37" -> <<37, cheb>>
                [] op = "table dx" -> <<11, cheb>>
                [] OTHER -> <<table, cheb>>
Init == table = 0 /\ cheb = FALSE /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ \E op \in Ops : table' = Effect(op)[1] /\ cheb' = Effect(op)[2] /\ path' = Append(path, op)
Spec == Init /\ [][Next]_vars
\* The resolution is that of the last table built, or the default once a spline query was made.
Last(S) == LET I == {k \in 1 .. Len(path) : path[k] \in S} IN IF I = {} THEN 0 ELSE CHOOSE k \in I : \A m \in I : m <= k
TableRule == table = LET b == Last({"table 37", "table dx"}) IN
                IF b # 0 THEN (IF path[b] = "table 37" THEN 37 ELSE 11) ELSE IF Last({"level spline"}) # 0 THEN Default ELSE 0
ChebRule == cheb = (Last({"volume cheb", "level cheb", "cheb"}) # 0)
Emit == Len(path) = Depth => EmitPlan([cell |-> path])
=============================================================================
