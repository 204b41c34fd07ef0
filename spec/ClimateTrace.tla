---------------------------- MODULE ClimateTrace ----------------------------
EXTENDS TraceBase, Climate
MyInit(e) == [file |-> "absent", asked |-> 0, days |-> <<>>, years |-> <<>>, st |-> <<>>, places |-> <<>>, lookups |-> 0]
Months(s, a) == LET RECURSIVE G(_)
                    G(i) == IF i > Len(s.years) THEN <<>> ELSE (IF (None(a.older) \/ s.years[i] >= a.older) /\ (None(a.newer) \/ s.years[i] <= a.newer) THEN <<i>> ELSE <<>>) \o G(i + 1) IN Eager(G(1))
SeqOk(o, n) == IF ~IsSeq(o) THEN FALSE ELSE Len(o) = n
RowOk(o, w) == IF ~SeqOk(o, 12) THEN FALSE ELSE \A m \in 1 .. 12 : IF IsStr(w[m]) THEN None(o[m]) ELSE QClose(o[m], w[m], "1e-12", "0")
Blank(r) == \A m \in 1 .. 12 : ~IsStr(r.months[m])
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "degrees" -> LET base == IF Has(a, "T_base") THEN Q(a.T_base) ELSE IF e.f = "heating" THEN QAdd(Q("273.15"), QDiv(Q("55"), Q("3"))) ELSE Q("283.15")
                               d == IF e.f = "heating" THEN QSub(Q(a.T), base) ELSE QSub(base, Q(a.T))
                               cut == IF Has(a, "truncate") THEN IsTrue(a.truncate) ELSE TRUE
                           IN [st |-> s, bad |-> Broken([DegreeDays |-> IF IsErr(o) THEN FALSE ELSE QClose(o, IF cut /\ QLt(d, Q(0)) THEN Q(0) ELSE d, "0", "1e-12")])]
    [] e.op = "day" -> [st |-> s, bad |-> Broken([
          Values |-> IF ~SeqOk(o, 4) THEN FALSE ELSE SeqOk(o[1], 12) /\ \A i \in 1 .. 12 : IF None(e.values[i]) THEN None(o[1][i]) ELSE IF IsStr(o[1][i]) THEN FALSE ELSE QClose(o[1][i], Converted(Fields[i], e.values[i], a.SI), "1e-14", "0"),
          Counts |-> IF ~SeqOk(o, 4) THEN FALSE ELSE Same(o[2], e.counts),
          Date |-> IF ~SeqOk(o, 4) THEN FALSE ELSE Same(o[3], e.date),
          Weather |-> IF ~SeqOk(o, 4) THEN FALSE ELSE Same(o[4], e.weather)])]
    [] e.op = "station" -> [st |-> [s EXCEPT !.days = Table(e.days, e.years), !.years = e.years], bad |-> Broken([InOrder |-> InOrder(e.days)])]
    [] e.op = "months" ->
         LET r == Eager(<<Averages(s.days, Months(s, a), a.w, a.least)>>)[1]  ok == Blank(r)  ys == Eager([k \in 1 .. Len(Months(s, a)) |-> s.years[Months(s, a)[k]]]) IN
         [st |-> s, bad |-> Broken([
            Months |-> IF ~ok THEN IsErr(o) ELSE IF IsErr(o) THEN FALSE ELSE IF a.yearly THEN SeqOk(o, 3) /\ RowOk(o[1], r.months) ELSE RowOk(o, r.months),
            Yearly |-> IF ~ok \/ ~a.yearly THEN TRUE ELSE IF ~SeqOk(o, 3) THEN FALSE ELSE Same(o[2], ys) /\ SeqOk(o[3], Len(ys)) /\ \A k \in 1 .. Len(ys) : RowOk(o[3][k], r.years[k])])]
    [] e.op = "extremes" ->
         LET r == Eager(<<Averages(s.days, Months(s, a), "temp", a.least)>>)[1]  ok == Blank(r) IN
         [st |-> s, bad |-> Broken([Coldest |-> IF ~ok THEN IsErr(o) ELSE IF ~SeqOk(o, 2) THEN FALSE ELSE \A m \in 1 .. 12 : QLe(QSub(r.months[o[1] + 1], Q("1e-9")), r.months[m]),
                                    Warmest |-> IF ~ok THEN IsErr(o) ELSE IF ~SeqOk(o, 2) THEN FALSE ELSE \A m \in 1 .. 12 : QLe(QSub(r.months[m], Q("1e-9")), r.months[o[2] + 1])])]
    [] e.op = "load" -> [st |-> [s EXCEPT !.st = e.stations], bad |-> Broken([Loaded |-> Same(o, e.loaded)])]
    [] e.op = "nearest" ->
         LET g == Eligible(s.st, a.since)  c == {i \in g : Same(s.st[i].id, o)} IN
         [st |-> s, bad |-> Broken([Nearest |-> IF g = {} THEN ErrIs(o, "ValueError") ELSE IF IsErr(o) THEN FALSE ELSE \E i \in c : \A j \in g : QLe(Dist2(s.st[i], a.lat, a.lon), QMul(Dist2(s.st[j], a.lat, a.lon), Q("1.00000000001")))])]
    [] e.op = "agree" -> [st |-> s, bad |-> Broken([OneTable |-> IsTrue(o)])]
    [] e.op = "name" -> [st |-> s, bad |-> Broken([Asked |-> Same(o, e.want)])]
    [] e.op = "files" ->
         LET r == AskFile(s.file, e.net) IN
         [st |-> [s EXCEPT !.file = r.file, !.asked = s.asked + r.asked],
          bad |-> Broken(IF ~SeqOk(o, 3) THEN [Served |-> FALSE] ELSE [Served |-> IF r.out = "data" THEN o[1] = "data" ELSE o[1] = "!ValueError", Asked |-> o[2] = s.asked + r.asked, Stored |-> o[3] = r.file])]
    [] e.op = "damage" -> [st |-> [s EXCEPT !.file = e.to], bad |-> {}]
    [] e.op = "place" ->
         LET hit == \E i \in 1 .. Len(s.places) : s.places[i] = e.key
             known == e.stub
             n == IF hit THEN s.lookups ELSE s.lookups + 1
         IN [st |-> [s EXCEPT !.places = IF hit \/ ~known THEN s.places ELSE Append(s.places, e.key), !.lookups = IF known THEN n ELSE s.lookups],
             bad |-> Broken(IF ~SeqOk(o, 2) THEN [Place |-> FALSE] ELSE [Place |-> IF known \/ hit THEN Same(o[1], e.want) ELSE IsStr(o[1]), LookedUpOnce |-> known => o[2] = n])]
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
