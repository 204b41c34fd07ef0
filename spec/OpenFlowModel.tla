--------------------------- MODULE OpenFlowModel ---------------------------
(* A device is chosen, then driven through the classes of its inputs.          *)
EXTENDS OpenFlow, TraceIO
CONSTANT Tier
VARIABLES dev, law, c
vars == <<dev, law, c>>
Classes(d) == CASE d = "weir" -> 6 [] d = "tee" -> 6 [] d = "york" -> 6 [] d = "agitator" -> 4 [] d = "salt" -> 4 [] d = "watkins" -> 4 [] OTHER -> 2
Init == /\ c = 1
        /\ \/ dev = "weir" /\ law \in Weirs
           \/ dev = "salt" /\ law \in Salts \union {"Rizk", "Geldart_Ling"}
           \/ dev = "tee" /\ law \in {"1", "2", "3", "4"}
           \/ dev = "watkins" /\ law \in {"spline", "blackwell", "branan"}
           \/ dev \in {"york", "agitator", "channel", "helical", "static", "souders", "refused", "tables"} /\ law = ""
Next == c < Classes(dev) /\ c' = c + 1 /\ UNCHANGED <<dev, law>>
Spec == Init /\ [][Next]_vars
\* more head, more flow
MoreHead == LET h == <<"0.05", "0.1", "0.2", "0.3", "0.5", "0.8">>
            A(i) == [h1 |-> R(h[i]), h2 |-> R("1"), b |-> R("1.5"), b1 |-> R("8"), angle |-> R("75")]
        IN (dev = "weir" /\ c > 1) => Weir(law, A(c)) \succ Weir(law, A(c - 1))
\* the measured laws of full-width weirs agree with one another
Agree == (dev = "weir" /\ law \in {"rectangular_full_Ackers", "rectangular_full_Kindsvater_Carter"}) =>
            LET a == [h1 |-> R("0.3"), h2 |-> R("0.5"), b |-> R("2")] IN Close(Weir(law, a), Weir("rectangular_full_Rehbock", a), "0.03")
\* the tee and demister laws join where their pieces meet (York's to a few per mille)
Joins == /\ dev = "tee" => \A n \in 1 .. 4 : CloseA(TeeE(n, TeeB(n)), TeeE(n, (TeeB(n) ** ("1" ++ "1e-12"))), "1e-9", "0")
         /\ dev = "york" => CloseA(York(R("1")), York(R("0.5")), "1e-12", "0") /\ CloseA(York(R("14.999")), York(R("15")), "0.01", "0") /\ CloseA(York(R("39.99")), York(R("40")), "0.02", "0")
\* the fits follow the chart they were drawn from
Fits == (dev = "watkins" /\ law # "spline") => \A x \in {"-4", "-2", "0", "1"} : Close((Exp(Watkins(law, R(x)))), (Exp(Watkins("spline", R(x)))), "0.2")
Emit == EmitPlan([cell |-> <<dev, law, c>>, dev |-> dev, law |-> law, c |-> c])
=============================================================================
