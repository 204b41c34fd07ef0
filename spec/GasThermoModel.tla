--------------------------- MODULE GasThermoModel ---------------------------
(* A gas changes state along a path of compressions and expansions; each      *)
(* relation is solved for one of its quantities, from a known set.            *)
EXTENDS GasThermo, TraceIO
CONSTANT Tier
VARIABLES call, unknown, stages
vars == <<call, unknown, stages>>
Max == IF Tier = "quick" THEN 3 ELSE 5
Init == call \in Calls /\ unknown \in Solves[call] /\ stages = 0
Next == stages < Max /\ stages' = stages + 1 /\ UNCHANGED <<call, unknown>>
Spec == Init /\ [][Next]_vars
B == [Z |-> "0.9", T |-> "300", T1 |-> "310", P1 |-> "1.1e5", P2 |-> "4.7e5", k |-> "1.37", eta |-> "0.78", eta_p |-> "0.81", eta_s |-> "0.77", n |-> "1.52", W |-> "5e3",
      P |-> "3e5", Tst |-> "351", Pst |-> "4e5", V |-> "121", Cp |-> "1007"]
With(r, u, v) == [x \in DOMAIN r \union {u} |-> IF x = u THEN v ELSE r[x]]
\* each way of solving a relation inverts the others
Inverse ==
  /\ call = "isentropic_work" /\ unknown # "W" => Close(Val("isentropic_work", unknown, With(B, "W", Val("isentropic_work", "W", B))), B[unknown], "1e-9")
  /\ call = "efficiency" => Close(Val(call, "eta_p", With(B, "eta_s", Val(call, "eta_s", B))), B.eta_p, "1e-9")
  /\ call = "exponent" => Close(Val(call, "eta_p", With(B, "n", Val(call, "n", B))), B.eta_p, "1e-9")
  /\ call = "stagnation" => Close(Val(call, "T", With(B, "Pst", Val(call, "P", B))), B.Tst, "1e-9")
\* compressing in stages between the same pressures: isothermal work adds up, at any number of stages
Staged == call = "isothermal_work" => Close(RSum([i \in 1 .. (stages + 1) |-> Val(call, "W", [B EXCEPT !.P1 = "1.1e5" ** ("1.5" ^^ R(Str(i - 1))), !.P2 = "1.1e5" ** ("1.5" ^^ R(Str(i)))])]),
                                  Val(call, "W", [B EXCEPT !.P2 = "1.1e5" ** ("1.5" ^^ R(Str(stages + 1)))]), "1e-9")
Emit == EmitPlan([cell |-> <<call, unknown, stages>>, call |-> call, unknown |-> unknown, stages |-> stages])
=============================================================================
