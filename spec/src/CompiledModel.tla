--------------------------- MODULE CompiledModel ---------------------------
(* A compiled function is compiled anew for each signature of argument types *)
(* it meets; whatever was compiled before must not change an answer.         *)
EXTENDS Api, TraceIO
CONSTANT Tier
VARIABLES f, hist, code
vars == <<f, hist, code>>
First(i) == i = 1 \/ Api[i - 1].f # Api[i].f
Sigs == {"real", "whole"}
Jit(i) == Api[i].jit
Firsts == {i \in Calls : First(i)}
Last(i) == LET n == CHOOSE n \in i .. Len(Api) : (n = Len(Api) \/ Api[n + 1].f # Api[i].f) /\ \A k \in i .. n : Api[k].f = Api[i].f IN n
Rows(i) == SelectSeq(SubSeq(Api, i, Last(i)), LAMBDA x : x.jit)
Init == f \in {i \in Firsts : Rows(i) # <<>>} /\ hist = <<>> /\ code = {}
Call(s) == Len(hist) < 3 /\ hist' = Append(hist, s) /\ code' = code \cup {s} /\ UNCHANGED f
Next == \E s \in Sigs : Call(s)
Spec == Init /\ [][Next]_vars
CompiledOnce == code = {hist[k] : k \in DOMAIN hist}
Histories == <<(<<"real">>), (<<"real", "real">>), (<<"real", "whole", "real">>), (<<"whole", "real", "real">>)>>
Due == IF Tier = "thorough" THEN Len(hist) = 3 ELSE hist = Histories[CASE f % 16 = 0 -> 3 [] f % 16 = 8 -> 4 [] OTHER -> 2]
Emit == Due => EmitPlan([cell |-> <<"jit", Api[f].f, hist>>, m |-> "jit", f |-> Api[f].f, xs |-> Rows(f), hist |-> hist])
=============================================================================
