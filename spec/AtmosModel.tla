----------------------------- MODULE AtmosModel -----------------------------
(* Climbing through the layers of the standard atmosphere: each base state is *)
(* carried from the layer below; and the regimes of the thermosphere model.   *)
EXTENDS Atmos, TraceIO
CONSTANT Tier
VARIABLES k, t, p, part
vars == <<k, t, p, part>>
Parts == {"std", "offset", "warm", "cold"}
Init == k = 1 /\ t = R("288.15") /\ p = R("101325") /\ part \in Parts
Climb == /\ k < 8
         /\ LET h == (Height[k] ++ (Height[k + 1] -- Height[k])) IN t' = LayerT(t, k, h) /\ p' = LayerP(t, p, k, h)
         /\ k' = k + 1 /\ part' = part
Next == Climb
Spec == Init /\ [][Next]_vars
\* tables of the standard
PubT == <<"288.15", "216.65", "216.65", "228.65", "270.65", "270.65", "214.65", "186.946">>
PubP == <<"101325", "22632.06", "5474.889", "868.0187", "110.9063", "66.93887", "3.956420", "0.3733836">>
Published == CloseA(t, PubT[k], "1e-9", "0") /\ CloseA(p, PubP[k], "2e-7", "0")
Thins == k > 1 => (p \prec Bases[k - 1][2])
Balanced ==   \* hydrostatic: dp/dh = -rho g0 on both sides of the base
  \A s \in {"-1", "1"} : (k = 1 /\ s = "-1") \/
    LET h == Height[k]  z == ((Earth ** h) // (Earth -- h))  d == (s ** "0.5")  zz == ((Earth ** (h ++ ("2" ** d))) // ((Earth -- h) -- ("2" ** d)))  zm == ((Earth ** (h ++ d)) // ((Earth -- h) -- d))
        slope == ((StdP(zz) -- StdP(z)) // ("2" ** d))  want == R("-9.80665" ** Density(StdT(zm), StdP(zm)))
    IN CloseA(slope, want, "1e-6", "0")
Tops == <<"10", "15", "20", "32.5", "45", "55", "62.5", "72.5", "90", "100", "110", "123.435", "160", "200", "240", "250", "300", "320", "450", "1000">>
Emit == /\ EmitPlan([cell |-> <<"std", k, part>>, m |-> "std", lo |-> IF k = 1 THEN "-5000" ELSE Height[k], hi |-> IF k = 8 THEN "86000" ELSE Height[k + 1], part |-> part])
        /\ (k = 1 /\ part = "std") =>
             /\ EmitPlan([cell |-> <<"property">>, m |-> "property"])
             /\ \A c \in {"low", "mid", "high"} : EmitPlan([cell |-> <<"drop", c>>, m |-> "drop", c |-> c])
             /\ \A c \in {"constant", "exponential", "linear", "standard"} : \A a \in {"up", "steep", "low"} : EmitPlan([cell |-> <<"path", c, a>>, m |-> "path", c |-> c, a |-> a])
             /\ \A i \in 1 .. Len(Tops) : \A h \in {0, 1} : EmitPlan([cell |-> <<"msis", Tops[i], h>>, m |-> "msis", lo |-> IF i = 1 THEN "0" ELSE Tops[i - 1], hi |-> Tops[i], hist |-> h])
=============================================================================
