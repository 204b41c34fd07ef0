----------------------------- MODULE SolarModel -----------------------------
(* A year seen from one place, in steps of a month and eight hours of a day.  *)
EXTENDS Solar, TraceIO
CONSTANT Tier
VARIABLES year, month, hour, lat
vars == <<year, month, hour, lat>>
Years == IF Tier = "thorough" THEN {1975, 1995, 2003, 2020, 2049, 2075} ELSE {1995, 2020}
Lats == {"-80", "-35", "0", "52", "90"}
Init == year \in Years /\ month = 0 /\ hour = 0 /\ lat \in Lats
Hour == hour < 21 /\ hour' = hour + 7 /\ UNCHANGED <<year, month, lat>>
Month == month < 11 /\ month' = month + 1 /\ hour' = 0 /\ UNCHANGED <<year, lat>>
Next == Hour \/ Month
Spec == Init /\ [][Next]_vars
U == $[ ((year - 1970)*365.25 + month*30.4 + 10)*86400 + hour*3600 ]
Dt == DeltaT(year, month + 1)
G == Geo(U, Dt)
S == Sun(U, Dt, lat, "20", "100", "1013.25", "25", "0.5667")
Orbit == (G.R \succ "0.9832") /\ (G.R \prec "1.0168")
Tropics == Abs(G.delta) \preceq "23.45"
EquationOfTime == Abs(S[6]) \prec "1000"
Complementary == CloseA((S[1]) ++ (S[3]), "90", "1e-12", "0") /\ CloseA((S[2]) ++ (S[4]), "90", "1e-12", "0")
Raised == S[3] \succeq S[4]
Noon == LET d == Day(Floor(U // "86400") ** "86400", Dt, lat, "20")  h == d.cosH  dec == G.delta IN
   ((Abs(h) \prec "0.6") /\ (Abs(lat) \prec "89")) =>
     /\ d.rise \prec d.transit /\ d.transit \prec d.set
     /\ Abs($[ (d.rise) + (d.set) - 2*(d.transit) ]) \prec "600"
     /\ LET n == Sun(d.transit, Dt, lat, "20", "0", "0", "0", "-100") r == Sun(d.rise, Dt, lat, "20", "0", "0", "0", "-100") IN
          /\ CloseA(n[2], Abs((lat) -- dec), "0", "0.4")
          /\ CloseA(r[2], "90.8333", "0", "0.01")
Continuity == \A y \in {1700, 1800, 1860, 1900, 1920, 1941, 1961, 1986, 2005, 2050} : CloseA(DeltaT(y - 1, 12), DeltaT(y, 1), "0", "1")
Emit == /\ EmitPlan([cell |-> <<"sun", year, month, hour, lat>>, m |-> "sun", year |-> year, month |-> month + 1, hour |-> hour, lat |-> lat])
        /\ (hour = 0) => EmitPlan([cell |-> <<"day", year, month, lat>>, m |-> "day", year |-> year, month |-> month + 1, lat |-> lat])
        /\ (month = 0 /\ hour = 0 /\ lat = "0" /\ year = 1995) =>
             /\ \A i \in 0 .. 13 : EmitPlan([cell |-> <<"deltat", i>>, m |-> "deltat", i |-> i])
             /\ \A c \in {"day", "twilight", "night", "facing", "model", "air"} : \A z \in {"sea", "high"} : EmitPlan([cell |-> <<"rad", c, z>>, m |-> "rad", c |-> c, z |-> z])
             /\ EmitPlan([cell |-> <<"julian">>, m |-> "julian"])
=============================================================================
