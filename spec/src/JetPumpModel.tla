---------------------------- MODULE JetPumpModel ----------------------------
(* Quantities of a working pump are forgotten one after another; the solver is *)
(* asked for what is missing.                                                  *)
EXTENDS JetPump, TraceIO
CONSTANT Tier
VARIABLES what, missing, ret, diff
vars == <<what, missing, ret, diff>>
Init == \/ what \in {"inlet", "pump"} /\ missing = {} /\ ret \in BOOLEAN /\ diff \in BOOLEAN /\ (what = "inlet" => ret /\ diff)
        \/ what = "leak" /\ ret = TRUE /\ diff = TRUE /\ \E m \in {"ryans", "seider", "hei", "coker"} : missing = {m}
Forget == what # "leak" /\ Cardinality(missing) < 3 /\ \E v \in (IF what = "inlet" THEN Inlet ELSE Vars) \ missing : missing' = missing \union {v} /\ UNCHANGED <<what, ret, diff>>
Next == Forget
Spec == Init /\ [][Next]_vars
S0(M, dm) == [d_nozzle |-> R("0.022"), d_mixing |-> R(dm), Qp |-> R("0.01"), Qs |-> $[ 0.01*M ], P1 |-> R("4e5"), P2 |-> R("1e5")]
P0(r) == [rhop |-> R("1000"), rhos |-> R("1000"), Kp |-> R("0.05"), Ks |-> R("0.1"), Km |-> R("0.15"), Kd |-> R("0.1"), d_diffuser |-> R("0.1"), retracted |-> r]
\* more entrainment costs pressure; a pump never delivers more energy than it is given
Physical == (what = "pump" /\ missing = {}) =>
   \A dm \in {"0.035", "0.045", "0.06"} : \A M \in {"0.1", "0.3", "0.5", "1"} :
      LET N == NRatio(S0(M, dm), P0(ret)) IN /\ $[ N*M ] \prec "1"
          /\ NRatio(S0($[ M*1.1 ], dm), P0(ret)) \prec N
\* without secondary flow and losses the ideal jet: num + den is the nozzle head
Ideal == (what = "pump" /\ missing = {}) => \A dm \in {"0.035", "0.06"} : LET s == S0("0", dm)  p == [P0(ret) EXCEPT !.Kp = R("0"), !.Km = R("0"), !.Kd = R("0")]  r == Ratio(s)  N == NRatio(s, p)
             a == $[ ((s.d_mixing)/(p.d_diffuser))**4 ] IN Close(N, $[ (2*r - r*r*(1 + a))/(1 - 2*r + r*r*(1 + a)) ], "1e-12")
Joins == what = "leak" => Close(HeiW(R("90"), R("100")), HeiW(R("91"), R("100")), "0.4") /\ RyansW(R("5"), R("100")) \prec RyansW(R("200"), R("100"))
Emit == EmitPlan([cell |-> <<what, missing, ret, diff>>, what |-> what, missing |-> missing, ret |-> ret, diff |-> diff])
=============================================================================
