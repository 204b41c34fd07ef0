------------------------------ MODULE Climate ------------------------------
(* Weather stations, their records, monthly averages, and what is kept on     *)
(* disk of past downloads and lookups.                                        *)
EXTENDS Polys
None(x) == IF IsStr(x) THEN x = "None" ELSE FALSE
\* a daily record: fields in order, in the units of the file
Fields == <<"TEMP", "DEWP", "SLP", "STP", "VISIB", "WDSP", "MXSPD", "GUST", "MAX", "MIN", "PRCP", "SNDP">>
Kelvin(x) == QMul(QAdd(Q(x), Q("459.67")), QDiv(Q(5), Q(9)))
Factor(f) == CASE f \in {"SLP", "STP"} -> Q(100) [] f = "VISIB" -> Q("1609.344") [] f \in {"WDSP", "MXSPD", "GUST"} -> QDiv(Q(1852), Q(3600)) [] f \in {"PRCP", "SNDP"} -> Q("0.0254")
Converted(f, x, si) == IF ~si THEN Q(x) ELSE IF f \in {"TEMP", "DEWP", "MAX", "MIN"} THEN Kelvin(x) ELSE QMul(Q(x), Factor(f))
\* mean of the days of a month of a year: days are [y, m, d, t, w] in order of date, the last record of a day counts
DateKey(d) == d.y * 10000 + d.m * 100 + d.d
InOrder(days) == \A i \in 1 .. Len(days) - 1 : DateKey(days[i]) <= DateKey(days[i + 1])
Kept(days) == Eager(SelectSeq(Eager([i \in 1 .. Len(days) |-> [d |-> days[i], last |-> IF i = Len(days) THEN TRUE ELSE DateKey(days[i]) # DateKey(days[i + 1])]]), LAMBDA r : r.last))
Table(days, years) == LET kept == Kept(days) IN Eager([k \in 1 .. Len(years) |-> Eager([m \in 1 .. 12 |-> Eager(SelectSeq(kept, LAMBDA r : r.d.y = years[k] /\ r.d.m = m))])])
Value(r, w) == IF w = "temp" THEN r.d.t ELSE r.d.w
MonthOf(rs, w, least) ==
  LET have == SelectSeq(rs, LAMBDA r : ~None(Value(r, w)))  f == IF w = "temp" THEN "TEMP" ELSE "WDSP" IN
  IF Len(have) < least THEN "None" ELSE QDiv(QSum(Eager([i \in 1 .. Len(have) |-> Converted(f, Value(have[i], w), TRUE)])), Q(Len(have)))
Averages(tab, which, w, least) ==
  LET table == Eager([k \in 1 .. Len(which) |-> Eager([m \in 1 .. 12 |-> MonthOf(tab[which[k]][m], w, least)])])
  IN [years |-> table, months |-> Eager([m \in 1 .. 12 |-> LET c == SelectSeq(Eager([k \in 1 .. Len(which) |-> table[k][m]]), LAMBDA v : ~IsStr(v)) IN IF Len(c) = 0 THEN "None" ELSE QDiv(QSum(c), Q(Len(c)))])]
\* the nearest station still reporting after a date (USAF, WBAN, lat, lon, end)
Dist2(s, lat, lon) == LET a == QSub(Q(s.lat), Q(lat))  b == QSub(Q(s.lon), Q(lon)) IN QAdd(QMul(a, a), QMul(b, b))
Eligible(st, since) == {i \in 1 .. Len(st) : st[i].e > since}
\* the file of a station and year: "absent", "good", "empty" or "marker" of a failed download
AskFile(file, net) ==
  IF file = "good" THEN [file |-> "good", out |-> "data", asked |-> 0]
  ELSE IF net = "up" THEN [file |-> "good", out |-> "data", asked |-> 1]
  ELSE [file |-> "marker", out |-> "refused", asked |-> 1]
=============================================================================
