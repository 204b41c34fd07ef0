----------------------------- MODULE SolidsModel -----------------------------
(* A client chooses the arguments of a constructor one by one; the model      *)
(* follows which sets of arguments determine the solid.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Solids
CONSTANT Tier
VARIABLES solid, given
vars == <<solid, given>>
Args == [coil |-> CoilArgs, pitch |-> PitchArgs, tower |-> TowerArgs, plate |-> {"width", "length", "plates", "d_port", "chevron_angles"},
         fin |-> {"length", "width", "layers", "plate_thickness"}, offset |-> {"length", "width", "layers", "plate_thickness"},
         cooler |-> {"fin_diameter", "fin_density", "tube_thickness", "corbels", "pitch_ratio", "bays"},
         simple |-> {}]
Det(s, S) == CASE s = "coil" -> CoilDetermined(S) [] s = "pitch" -> PitchDetermined(S) [] s = "tower" -> TowerDetermined(S) [] OTHER -> TRUE
Conflict(s, S) == (s = "coil" /\ ({"H", "H_total"} \subseteq S \/ {"Do", "Do_total"} \subseteq S \/ Cardinality((S \ {"Do", "Do_total"})) > 2))
               \/ (s = "pitch" /\ Cardinality(S) > 2) \/ (s = "tower" /\ {"D_inlet", "D_base"} \subseteq S)
Init == solid \in DOMAIN Args /\ given = {}
Give == \E a \in Args[solid] \ given : given' = given \union {a} /\ ~Conflict(solid, given') /\ UNCHANGED solid
Next == Give
Spec == Init /\ [][Next]_vars
\* Giving more never makes a determined solid undetermined.
DetMonotone == \A a \in Args[solid] \ given : Det(solid, given) => Det(solid, given \union {a})
Listed(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Emit == EmitPlan([cell |-> <<solid, given>>, solid |-> solid, given |-> Listed(given), det |-> Det(solid, given)])
=============================================================================
