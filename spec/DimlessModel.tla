---------------------------- MODULE DimlessModel ----------------------------
(* A client changes the units its inputs are expressed in, one base unit at  *)
(* a time; a group has the same value after every history of changes.        *)
(* This checks the definitions (all groups, all input forms) dimensionally,  *)
(* and the reachable (group, form, units) are the test cells.                *)
EXTENDS Dimless, TraceIO
CONSTANT Tier
VARIABLES n, form, units
vars == <<n, form, units>>

Max == IF Tier = "quick" THEN 1 ELSE 2
\* One base value per argument, all different (powers of primes), so that no coincidence hides an error.
Base == [ V |-> "3.1", D |-> "0.7", L |-> "1.3", rho |-> "11.0", mu |-> "0.13", nu |-> "0.017", Cp |-> "23.0", k |-> "2.9", alpha |-> "0.31",
   t |-> "3.7", x |-> "4.1", sigma |-> "0.43", c |-> "47.0", rhol |-> "53.0", rhog |-> "5.9", g |-> "6.1", mul |-> "0.67", path |-> "0.071", beta |-> "0.073",
   T1 |-> "79.0", T2 |-> "8.3", Pr |-> "0.89", Gr |-> "97.0", rho1 |-> "101.0", rho2 |-> "10.3", f |-> "1.07", h |-> "10.9", K |-> "1.13", dP |-> "127.0",
   P |-> "131.0", Psat |-> "13.7", dT |-> "13.9", Hvap |-> "149.0", Te |-> "1.51", N |-> "1.57", F |-> "163.0", A |-> "1.67", Dp |-> "0.173", rhop |-> "179.0",
   rhof |-> "18.1", Re |-> "191.0", fd |-> "0.0193", G |-> "19.7", q |-> "199.0", Di |-> "0.211", roughness |-> "0.00223", squared |-> TRUE, heavy |-> FALSE ]

Factor(a, nn, u) == LET d == DimOf(nn, a)
                    IN (("3" ^^ (d[1] * u[1])) ** ("0.3" ^^ (d[2] * u[2]))) ** (("7" ^^ (d[3] * u[3])) ** ("1.8" ^^ (d[4] * u[4])))
Arg(nn, f, u) == [a \in f |-> IF a \in {"squared", "heavy"} THEN Base[a] ELSE Base[a] ** Factor(a, nn, u)]

Init == \E m \in DOMAIN Forms : n = m /\ form \in Forms[m] /\ units = <<0, 0, 0, 0>>
\* Without an explicit g, the units of length and time have to keep standard gravity: they stay.
Next == /\ UNCHANGED <<n, form>>
        /\ \E b \in 1 .. 4 : /\ units[b] < Max
                             /\ UsesG(n, form) => b \in {1, 4}
                             /\ units' = [units EXCEPT ![b] = @ + 1]
Spec == Init /\ [][Next]_vars

AsRec(f) == [a \in DOMAIN f |-> f[a]]
Homogeneous == Close(Def(n, AsRec(Arg(n, form, units))), Def(n, AsRec(Arg(n, form, <<0,0,0,0>>))), "1e-12")
Emit == EmitPlan([cell |-> <<n, form, units>>, n |-> n, form |-> form, units |-> units, refused |-> FALSE])
EmitRefused == IF units = <<0,0,0,0>> /\ n = "Reynolds" /\ form = {"V","D","nu"}
               THEN \A r \in Refused : EmitPlan([cell |-> <<"refused", r>>, n |-> r[1], form |-> r[2], units |-> <<0,0,0,0>>, refused |-> TRUE])
               ELSE TRUE
=============================================================================
