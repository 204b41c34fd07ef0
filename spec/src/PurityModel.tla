----------------------------- MODULE PurityModel -----------------------------
(* Machines which remember results in front of a function: a right one keyed  *)
(* by all arguments, and wrong ones - keyed by part of them, handing out what *)
(* they keep, or left half-changed by a failure.  Every machine is run over   *)
(* every history; the histories emitted are exactly ones by which each wrong  *)
(* machine shows.                                                             *)
EXTENDS Purity, TraceIO
CONSTANT Tier
VARIABLES hist, right, part, alias, stuck, shown
vars == <<hist, right, part, alias, stuck, shown>>
Keys == {"base", "vary"}
Init == hist = <<>> /\ right = {} /\ part = "none" /\ alias = "clean" /\ stuck = FALSE /\ shown = {}
Depth == IF Tier = "quick" THEN 4 ELSE 5
\* part: the result first computed is given ever after; alias: a spoilt result is given again; stuck: after a failure answers differ
Do(m) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, m)
  /\ right' = IF m \in Keys THEN right \cup {m} ELSE right
  /\ part' = IF m \in Keys /\ part = "none" THEN m ELSE part
  /\ alias' = IF m = "spoil" /\ "base" \in right THEN "spoilt" ELSE alias
  /\ stuck' = (stuck \/ m = "fail")
  /\ shown' = shown \cup (IF m \in Keys /\ part \in Keys /\ part # m THEN {"part"} ELSE {})
                    \cup (IF m = "base" /\ alias = "spoilt" THEN {"alias"} ELSE {})
                    \cup (IF m \in Keys /\ stuck THEN {"stuck"} ELSE {})
Next == \E m \in Moves : Do(m)
Spec == Init /\ [][Next]_vars
\* a right machine remembers exactly the calls made
RightIsKeyed == right = {hist[i] : i \in {j \in 1 .. Len(hist) : hist[j] \in Keys}}
Revealing == Len(hist) = Depth /\ shown = {"part", "alias", "stuck"}
ShownOnlyWhenRepeated == shown # {} => Cardinality({i \in 1 .. Len(hist) : hist[i] \in Keys}) >= 1
First(i) == i = 1 \/ Api[i - 1].f # Api[i].f
Last(i) == LET n == CHOOSE n \in i .. Len(Api) : (n = Len(Api) \/ Api[n + 1].f # Api[i].f) /\ \A k \in i .. n : Api[k].f = Api[i].f IN n
Fixed == <<(<<"base", "spoil", "vary", "fail", "base", "other", "base">>), (<<"vary", "fail", "base", "spoil", "base", "vary">>), (<<"base", "vary", "vary", "spoil", "base", "fail", "vary">>)>>
Adapters == {"vectorized", "units", "numba"}
Orders == {<<a, b, c>> : a \in Adapters, b \in Adapters, c \in Adapters}
AtStart == hist = <<>>
Emit == /\ AtStart =>
            /\ \A i \in {j \in Calls : First(j)} : EmitPlan([cell |-> <<"calls", Api[i].f>>, m |-> "calls", f |-> Api[i].f, xs |-> SubSeq(Api, i, Last(i)), hist |-> Fixed[1 + (i % 3)]])
            /\ \A o \in {p \in Orders : Cardinality({p[1], p[2], p[3]}) = 3} : EmitPlan([cell |-> <<"adapters", o>>, m |-> "adapters", order |-> o, xs |-> SelectSeq(Api, LAMBDA x : x.i = "0")])
            /\ \A k \in {"methods", "colebrook", "tables", "solvers"} : EmitPlan([cell |-> <<k>>, m |-> k])
        /\ (Revealing /\ Tier = "thorough") => \A i \in {j \in Calls : First(j) /\ (j % 37) = Len(hist) + Cardinality({q \in 1 .. Len(hist) : hist[q] = "base"})} :
             EmitPlan([cell |-> <<"revealing", Api[i].f, hist>>, m |-> "calls", f |-> Api[i].f, xs |-> SubSeq(Api, i, Last(i)), hist |-> hist])
=============================================================================
