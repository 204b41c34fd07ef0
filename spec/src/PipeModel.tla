----------------------------- MODULE PipeModel -----------------------------
(* Choosing a pipe: the table is read downwards until a row is large enough.   *)
EXTENDS Pipe, TraceIO
CONSTANT Tier
VARIABLES kind, tab, row, by, at, found
vars == <<kind, tab, row, by, at, found>>
Col(b) == CASE b = "Di" -> 3 [] b = "Do" -> 4 [] b = "NPS" -> 2
Init == \/ /\ kind = "pipe" /\ tab \in 1 .. NSched /\ by \in {"Di", "Do", "NPS"} /\ row \in 1 .. Rows(tab) /\ at = 1 /\ found = FALSE
        \/ /\ kind = "wire" /\ tab \in 1 .. NWire /\ by \in {"t", "gauge"} /\ row \in 1 .. NG(tab) /\ at = 1 /\ found = FALSE
        \/ /\ kind = "erosion" /\ tab = 1 /\ row = 1 /\ by = "any" /\ at = 1 /\ found = FALSE
want == R(PSched[tab][Col(by)][row])
Next == /\ kind = "pipe" /\ by # "NPS" /\ ~found /\ at <= Rows(tab)
        /\ IF PSched[tab][Col(by)][at] \succeq want THEN found' = TRUE /\ at' = at ELSE found' = FALSE /\ at' = at + 1
        /\ UNCHANGED <<kind, tab, row, by>>
Spec == Init /\ [][Next]_vars
\* asking for a tabulated size finds exactly that row
OwnRow == (kind = "pipe" /\ found) => at = row /\ at = Least(Ample(tab, Col(by), want // R("1000")))
Start == at = 1 /\ row = 1
Up(s) == \A i \in 1 .. Len(s) - 1 : s[i] \prec s[i + 1]
Down(s) == \A i \in 1 .. Len(s) - 1 : s[i] \succ s[i + 1]
\* every schedule is ordered, and outer = inner + 2 wall to 0.03 mm
Consistent == (Start /\ kind = "pipe") => /\ Up(PSched[tab][2]) /\ Up(PSched[tab][3]) /\ Up(PSched[tab][4])
                /\ \A k \in 1 .. Rows(tab) : CloseA($[ R(PSched[tab][3][k]) + 2*R(PSched[tab][5][k]) ], PSched[tab][4][k], "0", "0.03")
WireConsistent == (Start /\ kind = "wire") => Down(Inches(tab)) /\ \A k \in 1 .. NG(tab) : CloseA($[ R(Inches(tab)[k])*0.0254 ], Metres(tab)[k], "0", "2e-6") /\ GaugeFor(tab, R(Inches(tab)[k])) = Gauges(tab)[k]
Emit == at = 1 /\ ~found => EmitPlan([cell |-> <<kind, tab, row, by>>, kind |-> kind, row |-> row, by |-> by, name |-> IF kind = "pipe" THEN PSched[tab][1] ELSE IF kind = "wire" THEN Wires[tab][1] ELSE "none",
                       x |-> IF kind = "pipe" THEN PSched[tab][Col(by)][row] ELSE IF kind = "wire" THEN (IF by = "t" THEN Inches(tab) ELSE Gauges(tab))[row] ELSE "0",
                       y |-> IF row > 1 THEN (IF kind = "pipe" THEN PSched[tab][Col(by)][row - 1] ELSE Inches(tab)[row - 1]) ELSE "0"])
=============================================================================
