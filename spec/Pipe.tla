-------------------------------- MODULE Pipe --------------------------------
(* Standard pipe sizes, wire gauges, erosional velocity.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, PipeData
NSched == Len(PSched)
Sched(name) == CHOOSE i \in 1 .. NSched : PSched[i][1] = name
KnownSched(name) == \E i \in 1 .. NSched : PSched[i][1] = name
Rows(i) == Len(PSched[i][2])
Row(i, k) == <<R(PSched[i][2][k]), R(PSched[i][3][k]) // R("1000"), R(PSched[i][4][k]) // R("1000"), R(PSched[i][5][k]) // R("1000")>>
\* a size counts as large enough when it is so up to rounding of the unit conversion
Enough(tab, x) == LET t == R(tab) // R("1000") IN t \succeq x \/ Close(t, x, "1e-12")
Ample(i, c, x) == {k \in 1 .. Rows(i) : Enough(PSched[i][c][k], x)}
Least(S) == CHOOSE k \in S : \A j \in S : k <= j
Named(i, n) == {k \in 1 .. Rows(i) : REq(PSched[i][2][k], n)}
Pick(i, a) == IF Has(a, "Di") THEN Ample(i, 3, a.Di) ELSE IF Has(a, "Do") THEN Ample(i, 4, a.Do) ELSE Named(i, a.NPS)
NWire == Len(Wires)
Wire(name) == CHOOSE i \in 1 .. NWire : Wires[i][1] = name
KnownWire(name) == \E i \in 1 .. NWire : Wires[i][1] = name
Gauges(i) == Wires[i][2]
Inches(i) == Wires[i][3]
Metres(i) == Wires[i][4]
NG(i) == Len(Wires[i][2])
Exact(i, t) == {k \in 1 .. NG(i) : CloseA(t, Inches(i)[k], "0", "6e-10")}
Thicker(i, t) == {k \in 1 .. NG(i) : Inches(i)[k] \succ t}
Max(S) == CHOOSE k \in S : \A j \in S : j <= k
\* the next thinner gauge is used within a tenth of the step; otherwise the thicker one
GaugeFor(i, t) == IF Exact(i, t) # {} THEN Gauges(i)[Least(Exact(i, t))]
                  ELSE LET k == Max(Thicker(i, t))  step == R(Inches(i)[k]) -- R(Inches(i)[k + 1]) IN IF (t -- R(Inches(i)[k + 1])) \preceq R("0.1" ** step) THEN Gauges(i)[k + 1] ELSE Gauges(i)[k]
Erosional(rho, C) == ((C ** "0.3048") // Sqrt((rho ** ("0.3048" ^^ "3")) // "0.45359237"))
=============================================================================
