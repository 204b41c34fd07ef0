---------------------------- MODULE SystemsModel ----------------------------
(* A solver of a system as a machine: it holds a point and its error, tries   *)
(* fractions of a step until the error falls, and stops when the error is     *)
(* small or the iterations are spent.  The error after each trial is chosen   *)
(* freely, which covers every function.                                       *)
EXTENDS Systems, TraceIO
CONSTANT Tier
VARIABLES err, fi, it, pc, search, progress, low
vars == <<err, fi, it, pc, search, progress, low>>
MaxIt == 3
NF == 3
Init == err \in 0 .. 3 /\ fi = 1 /\ it = 1 /\ pc = "try" /\ search \in BOOLEAN /\ progress \in BOOLEAN /\ low = err
Accept(n) == LET stop == n = 0 IN
  IF progress /\ n >= err THEN pc' = "refused" /\ UNCHANGED <<fi, it>> /\ err' = n
  ELSE err' = n /\ fi' = 1 /\ it' = it + 1 /\ pc' = IF stop THEN "done" ELSE IF it + 1 >= MaxIt THEN "unconverged" ELSE "try"
Try == pc = "try" /\ \E n \in 0 .. 3 :
         /\ low' = IF n < low THEN n ELSE low
         /\ IF n < err \/ fi = (IF search THEN NF ELSE 1) THEN Accept(n) ELSE fi' = fi + 1 /\ UNCHANGED <<err, it, pc>>
         /\ UNCHANGED <<search, progress>>
Spec == Init /\ [][Try]_vars
DoneIsSolved == pc = "done" => err = 0
ProgressLowers == progress /\ pc \in {"done", "unconverged", "try"} => err = low
Bounded == it <= MaxIt
Methods == {"newton", "newton_jac", "search", "armijo", "progress", "damped", "dampfn"}
Probs == {"linear", "quad", "exp"}
Tols == {"x", "y", "xy"}
Emit == (err = 0 /\ fi = 1 /\ it = 1 /\ pc = "try" /\ ~search /\ ~progress) =>
  /\ \A m \in Methods, p \in Probs, t \in Tols, n \in 1 .. 3 : EmitPlan([cell |-> <<"newton", m, p, t, n>>, m |-> "newton", v |-> m, p |-> p, t |-> t, n |-> n])
  /\ \A m \in {"plain", "damped", "few", "jac", "hess"}, t \in Tols, n \in 1 .. 3 : EmitPlan([cell |-> <<"minimize", m, t, n>>, m |-> "minimize", v |-> m, t |-> t, n |-> n])
  /\ \A m \in {"plain", "aitken", "gdem"}, o \in {"plain", "damped", "few", "progress", "solved", "nan"}, t \in Tols, n \in 1 .. 3 : EmitPlan([cell |-> <<"fixed", m, o, t, n>>, m |-> "fixed", v |-> m, o |-> o, t |-> t, n |-> n])
  /\ \A p \in Probs, m \in {"homotopy", "broyden"}, n \in 1 .. 3 : EmitPlan([cell |-> <<m, p, n>>, m |-> m, p |-> p, n |-> n])
  /\ \A m \in {"anderson", "residual"}, n \in 1 .. 3 : EmitPlan([cell |-> <<m, n>>, m |-> "anderson", v |-> m, n |-> n])
  /\ \A m \in {"plain", "adaptive", "low", "high", "box", "atbound", "simplex", "args", "few", "zero"}, n \in 1 .. 3 : EmitPlan([cell |-> <<"simplex", m, n>>, m |-> "simplex", v |-> m, n |-> n])
  /\ \A m \in {"derivative", "vector", "limits", "jacobian", "gradient", "hessian", "vhessian", "weights"}, n \in 1 .. 4 : EmitPlan([cell |-> <<"diff", m, n>>, m |-> "diff", v |-> m, n |-> n])
  /\ \A m \in {"f", "jac", "matrix", "fjac", "bounds"}, n \in 1 .. 3 : EmitPlan([cell |-> <<"bound", m, n>>, m |-> "bound", v |-> m, n |-> n])
  /\ \A m \in {"sign", "signlist", "initial", "initiallist", "max", "maxlist", "maxeach", "basic"} : EmitPlan([cell |-> <<"damp", m>>, m |-> "damp", v |-> m])
  /\ \A b \in BOOLEAN, g \in BOOLEAN, w \in {"call", "wrap"} : EmitPlan([cell |-> <<"osc", b, g, w>>, m |-> "osc", b |-> b, g |-> g, w |-> w])
  /\ \A p \in {"none", "some"}, q \in {"none", "some"}, d \in {"up", "down"} : EmitPlan([cell |-> <<"bbb", p, q, d>>, m |-> "bbb", p |-> p, q |-> q, d |-> d])
  /\ \A m \in {"newton_system", "newton_system_line_search", "newton_system_line_search_progress", "homotopy_solver", "broyden2_python", "fixed_point", "fixed_point_aitken", "fixed_point_gdem", "fixed_point_anderson", "hybr", "lm", "BFGS", "newton_minimize"},
        np \in BOOLEAN, jm \in {"analytical", "python"}, xnp \in BOOLEAN : EmitPlan([cell |-> <<"iface", m, np, jm, xnp>>, m |-> "iface", v |-> m, np |-> np, jm |-> jm, xnp |-> xnp])
=============================================================================
