------------------------------ MODULE TankModel ------------------------------
(* The configurations a vessel can be in, and a client that fills it layer   *)
(* by layer through the levels at which the geometry changes.  Abstractly a  *)
(* vessel is a stack of layers, each of which adds a positive volume; the    *)
(* volume held is a function of the level alone, strictly increasing, and    *)
(* full at the top.  Every (configuration, level) reached is a test cell.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO
CONSTANT Tier
VARIABLES conf, level, held
vars == <<conf, level, held>>

HKinds == {"none", "conical", "ellipsoidal", "spherical", "torispherical", "guppy"}
VKinds == HKinds \ {"guppy"}
\* Levels at which the formula may change, in order.
HLevels(A, B) == <<"empty", "sliver", "low", "knuckle-", "knuckle+", "below mid", "mid", "above mid", "upper knuckle-", "upper knuckle+", "high", "nearly full", "full", "over">>
VLevels(A, B) == (IF A = "none" THEN <<"empty">> ELSE <<"empty", "sliver", "head A low", "head A knuckle-", "head A knuckle+", "rim A">>)
                 \o <<"cylinder", "cylinder high", "rim B">>
                 \o (IF B = "none" THEN <<"over">> ELSE <<"head B low", "head B knuckle-", "head B knuckle+", "head B high", "full", "over">>)
Levels(c) == IF c.horiz THEN HLevels(c.A, c.B) ELSE VLevels(c.A, c.B)
\* Abstract volume of layer j (any positive numbers do).
Layer(c, j) == (j % 3) + 1
Vol(c, l) == LET S[j \in 0 .. l] == IF j = 0 THEN 0 ELSE S[j-1] + Layer(c, j) IN S[l]
Top(c) == Len(Levels(c)) - 1

Init == /\ \/ \E A, B \in HKinds : conf = [horiz |-> TRUE, A |-> A, B |-> B]
           \/ \E A, B \in VKinds : conf = [horiz |-> FALSE, A |-> A, B |-> B]
        /\ level = 0 /\ held = 0
Fill == level < Top(conf) /\ level' = level + 1 /\ held' = held + Layer(conf, level + 1) /\ UNCHANGED conf
Drain == level > 0 /\ level' = level - 1 /\ held' = held - Layer(conf, level) /\ UNCHANGED conf
Next == Fill \/ Drain
Spec == Init /\ [][Next]_vars

FunctionOfLevel == held = Vol(conf, level)
Increasing == \A l \in 0 .. Top(conf) - 1 : Vol(conf, l) < Vol(conf, l + 1)
Emit == EmitPlan([cell |-> <<conf.horiz, conf.A, conf.B, Levels(conf)[level + 1]>>, horiz |-> conf.horiz, A |-> conf.A, B |-> conf.B, level |-> Levels(conf)[level + 1]])
=============================================================================
