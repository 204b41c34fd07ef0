---------------------------- MODULE ClimateModel ----------------------------
(* The files of downloaded years as a machine: asked for, network up or down, *)
(* truncated by a crash, deleted.  And the table of places looked up.         *)
EXTENDS Climate, TraceIO
CONSTANT Tier
VARIABLES file, hist, served, asked
vars == <<file, hist, served, asked>>
Init == file = "absent" /\ hist = <<>> /\ served = <<>> /\ asked = 0
Step(a, r) == hist' = Append(hist, a) /\ file' = r.file /\ served' = Append(served, r.out) /\ asked' = asked + r.asked
Depth == IF Tier = "quick" THEN 4 ELSE 5
Ask(net) == Len(hist) < Depth /\ Step(net, AskFile(file, net))
Crash == Len(hist) < Depth /\ file # "absent" /\ Step("truncate", [file |-> "empty", out |-> "none", asked |-> 0])
Delete == Len(hist) < Depth /\ file # "absent" /\ Step("delete", [file |-> "absent", out |-> "none", asked |-> 0])
Next == Ask("up") \/ Ask("down") \/ Crash \/ Delete
Spec == Init /\ [][Next]_vars
\* a failure is never served as data, and good data are not asked for again
NoFailureServed == \A i \in 1 .. Len(hist) : served[i] = "refused" => hist[i] = "down"
GoodStays == \A i \in 1 .. Len(hist) : \A j \in i + 1 .. Len(hist) : (served[i] = "data" /\ hist[j] \in {"up", "down"} /\ (\A k \in i + 1 .. j - 1 : hist[k] \in {"up", "down"})) => served[j] = "data"
Recovers == \A i \in 1 .. Len(hist) : hist[i] = "up" => served[i] = "data"
AskedFew == asked <= Cardinality({i \in 1 .. Len(hist) : hist[i] \in {"up", "down"}})
AtStart == hist = <<>>
Laws == AtStart =>
  /\ QEq(Kelvin(R("32")), Q("273.15")) /\ QEq(Converted("WDSP", R("3600"), TRUE), Q(1852))
  /\ LET D(y, d, t) == [y |-> y, m |-> 1, d |-> d, t |-> R(t), w |-> "None"]
         d == <<D(2000, 1, "1"), D(2000, 1, "41"), D(2000, 2, "5"), D(2001, 1, "95")>>
         t == Table(d, <<2000, 2001>>)  K(x) == Kelvin(R(x)) IN
     /\ Len(Kept(d)) = 3 /\ InOrder(d)
     /\ QEq(Averages(t, <<1, 2>>, "temp", 1).months[1], K("59")) /\ QEq(Averages(t, <<1, 2>>, "temp", 2).months[1], K("23"))
     /\ IsStr(Averages(t, <<1>>, "temp", 1).months[2]) /\ IsStr(Averages(t, <<1>>, "wind", 1).months[1])
Emit == /\ Len(hist) > 0 => EmitPlan([cell |-> <<"file", hist>>, m |-> "files", hist |-> hist])
  /\ AtStart => /\ (\A f \in {"heating", "cooling"}, t \in BOOLEAN, z \in {"above", "below", "at", "default"} : EmitPlan([cell |-> <<f, t, z>>, m |-> "degrees", f |-> f, t |-> t, z |-> z]))
      /\ (\A k \in 0 .. 12, si \in BOOLEAN, d \in BOOLEAN : EmitPlan([cell |-> <<"day", k, si, d>>, m |-> "day", k |-> k, si |-> si, d |-> d]))
      /\ (\A k \in {"edge999", "edge99", "flags", "zero", "allmissing"} : EmitPlan([cell |-> <<"dayedge", k>>, m |-> "day", k |-> k, si |-> TRUE, d |-> TRUE]))
      /\ (\A n \in 1 .. 3, g \in {"full", "gaps", "sparse", "twice", "leap"}, y \in {"all", "some", "none", "default"} : EmitPlan([cell |-> <<"months", n, g, y>>, m |-> "months", n |-> n, g |-> g, y |-> y]))
      /\ (\A n \in {1, 2, 7, 40}, w \in {"any", "recent", "never", "tie"}, k \in {1, 2, 100} : EmitPlan([cell |-> <<"nearest", n, w, k>>, m |-> "nearest", n |-> n, w |-> w, k |-> k]))
      /\ (\A k \in {"plain", "zeros", "letters", "missing", "wban"} : EmitPlan([cell |-> <<"names", k>>, m |-> "names", k |-> k]))
      /\ (\A k \in {"plain", "numeric", "unicode", "nogeocoder", "repeat"} : EmitPlan([cell |-> <<"places", k>>, m |-> "places", k |-> k]))
      /\ EmitPlan([cell |-> <<"history">>, m |-> "history"])
=============================================================================
