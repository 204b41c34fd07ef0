---------------------------- MODULE SolverTrace ----------------------------
EXTENDS TraceBase, Solver
\* ev: all points evaluated or given, oldest first; l, r: the bracket (bracketing methods), or the last points of either sign
Start(e) == [m |-> e.m, fam |-> e.fam, fl |-> {e.flags[i] : i \in 1 .. Len(e.flags)}, a |-> e.a, n |-> 0, ev |-> <<>>, zero |-> "None",
             l |-> "None", r |-> "None", irr |-> FALSE]
MyInit(e) == <<>>
Pt(x, y) == [x |-> x, y |-> y, d |-> R("0"), c |-> R("0")]
Last(s) == s.ev[Len(s.ev)]
\* ---- bracketing
Given2(s) == IF s.m = "brenth" /\ Given(s.a, "fa") THEN <<Pt(s.a.a, s.a.fa), Pt(s.a.b, s.a.fb)>> ELSE <<>>
Ends(s) == Given2(s) \o s.ev
AddB(s, p) == LET k == Len(s.ev) + 1 IN
   IF Len(Ends(s)) < 2 THEN [s EXCEPT !.ev = Append(@, p), !.n = @ + 1]
   ELSE LET l == IF None(s.l) THEN Ends(s)[1] ELSE s.l  r == IF None(s.r) THEN Ends(s)[2] ELSE s.r
            z == IF Zero0(p.y) THEN p.x ELSE s.zero
        IN IF Neg0(p.y) = Neg0(l.y) THEN [s EXCEPT !.ev = Append(@, p), !.n = @ + 1, !.l = p, !.r = r, !.zero = z]
           ELSE [s EXCEPT !.ev = Append(@, p), !.n = @ + 1, !.l = l, !.r = p, !.zero = z]
EvalB(s, e) ==
   LET p == Pt(e.x, e.y)  en == Ends(s)
       l == IF None(s.l) /\ Len(en) >= 2 THEN en[1] ELSE s.l  r == IF None(s.r) /\ Len(en) >= 2 THEN en[2] ELSE s.r IN
   [st |-> AddB(s, p), bad |-> Broken(
     IF Len(en) < 2 THEN [EndsFirst |-> Same(e.x, IF Len(en) = 0 THEN s.a.a ELSE s.a.b) \/ Same(e.x, IF Len(en) = 0 THEN s.a.b ELSE s.a.a)]
     ELSE [InBracket |-> Between(e.x, l.x, r.x) \/ CloseA(e.x, l.x, "1e-15", "0") \/ CloseA(e.x, r.x, "1e-15", "0"),
           OnlyIfBracketed |-> en[1].y ** en[2].y \prec "0" /\ (IsNum(s.zero) => Same(e.x, s.zero)),
           Halves |-> s.m = "bisect" => CloseA(e.x, Mid(l.x, r.x), "1e-14", (Abs(s.a.a -- s.a.b) ** "1e-15")) ])]
EndB(s, e) ==
   LET en == Ends(s)  o == e.out  fa == en[1]  fb == en[2]
       l == IF None(s.l) THEN fa ELSE s.l  r == IF None(s.r) THEN fb ELSE s.r
       bounded == fa.y ** fb.y \preceq "0"
       tol == LET xt == Def(s.a, "xtol", R("1e-12"))  rt == Def(s.a, "rtol", R("1e-15")) IN $[ (xt + rt*abs(o))*1.000001 + 4.5e-16*abs(o) ]
       mine == IF Same(o, l.x) THEN l ELSE r  other == IF Same(o, l.x) THEN r ELSE l
       most == (MaxIt(s.a)) * (IF s.m = "ridder" THEN 2 ELSE 1)
   IN [st |-> s, bad |-> Broken(
      IF Len(en) < 2 THEN [EvaluatesEnds |-> FALSE]
      ELSE IF ~bounded THEN [Refuses |-> Len(s.ev) + Len(Given2(s)) = 2 /\ (ErrIs(o, "ValueError") \/ ErrIs(o, "NotBoundedError"))]
      ELSE IF IsErr(o) THEN [GivesUpOnlyAtLimit |-> ErrIs(o, "UnconvergedError") /\ Len(en) >= most + 2]
      ELSE IF \E i \in 1 .. Len(en) : Zero0(en[i].y) THEN [Zero |-> \E i \in 1 .. Len(en) : Zero0(en[i].y) /\ Same(en[i].x, o)]
      ELSE [Evaluated |-> Same(o, l.x) \/ Same(o, r.x),
            SignChange |-> Abs(l.x -- r.x) \preceq tol /\ (Neg0(l.y) # Neg0(r.y)),
            IsRoot |-> CloseA(o, s.a.root, "0", tol),
            YTol |-> HasY(s.a) => Abs(mine.y) \prec s.a.ytol,
            Nearest |-> s.m = "brenth" => Abs(mine.y) \preceq Abs(other.y)])]
\* ---- open methods
P(e) == [x |-> e.x, y |-> e.y, d |-> e.d, c |-> e.c]
Signed(s, p) == IF Neg0(p.y) THEN [s EXCEPT !.l = p] ELSE [s EXCEPT !.r = p]
Near(s, x, y) == LET w == Abs(s.a.x0 -- s.a.root)  z == IF Len(s.ev) > 0 THEN Abs(s.ev[Len(s.ev)].x) ELSE R("0") IN CloseA(x, y, "1e-9", $[ w*1e-11 + z*1e-13 ])
Both(s) == "bis" \in s.fl /\ ~None(s.l) /\ ~None(s.r)
\* where the next point may be, given the method's own next point
Allowed(s, raw, x) ==
   LET p == Clip(s.a, raw) IN
   IF Both(s) THEN LET u == s.l.x  v == s.r.x IN Near(s, x, Clip(s.a, Mid(u, v))) \/ (Near(s, x, p) /\ (Between(x, u, v) \/ Near(s, x, u) \/ Near(s, x, v)))
   ELSE Near(s, x, p)
InBounds(s, x) == (Given(s.a, "low") => Def(s.a, "low", R("0")) \preceq x) /\ (Given(s.a, "high") => x \preceq Def(s.a, "high", R("0")))
\* secant
Known(s) == (IF Given(s.a, "f0") THEN <<Pt(s.a.x0, s.a.f0)>> ELSE <<>>)
SecPts(s) == IF Given(s.a, "f1") THEN <<Pt(s.a.x0, s.a.f0), Pt(s.a.x1, s.a.f1)>> \o s.ev ELSE Known(s) \o s.ev
AddS(s, p) == LET q == [s EXCEPT !.ev = Append(@, p), !.n = @ + 1, !.zero = IF Zero0(p.y) THEN p.x ELSE @]
                  pts == SecPts(q)  k == Len(pts) IN
   IF "bis" \notin s.fl \/ k < 2 THEN q
   ELSE LET g == IF None(s.l) /\ None(s.r) THEN Signed(Signed(q, pts[2]), pts[1]) ELSE q IN IF k = 2 THEN g ELSE Signed(g, p)
EvalS(s, e) ==
   LET pts == SecPts(s)  k == Len(pts)  p1 == pts[k]  p0 == pts[k - 1]
       s1 == IF "bis" \in s.fl /\ None(s.l) /\ None(s.r) /\ k >= 2 THEN Signed(Signed(s, pts[2]), pts[1]) ELSE s IN
   [st |-> AddS(s1, Pt(e.x, e.y)), bad |-> Broken(
     IF k = 0 THEN [FromGuess |-> Same(e.x, s.a.x0)]
     ELSE IF k = 1 THEN [SecondPoint |-> Near(s, e.x, SecantX1(s.a)), Continues |-> Finite(p1.y) /\ ~Zero0(p1.y)]
     ELSE [Continues |-> (Finite(p1.y) \/ "more" \in s.fl) /\ ~Zero0(p1.y) /\ (REq(p1.y, p0.y) => "more" \in s.fl \/ Both(s1)),
           InBounds |-> InBounds(s, e.x),
           InBracket |-> (Both(s1) /\ "more" \notin s.fl) => Between(e.x, s1.l.x, s1.r.x),
           Secant |-> "more" \in s.fl \/ ~Finite(p1.x) \/ ~Finite(SecantStep(s.a, p0, p1)) \/ (IF REq(p1.y, p0.y) THEN Near(s, e.x, Mid(s1.l.x, s1.r.x)) ELSE Allowed(s1, SecantStep(s.a, p0, p1), e.x))])]
EndS(s, e) ==
   LET pts == SecPts(s)  k == Len(pts)  o == e.out  p1 == pts[k]  p0 == pts[k - 1]
       early == HasY(s.a) /\ Has(s.a, "require_xtol") IN
   [st |-> s, bad |-> Broken(
     IF k < 1 THEN [Evaluates |-> FALSE]
     ELSE IF IsErr(o) THEN [GivesUp |-> (ErrIs(o, "UnconvergedError") /\ (Bad(p1.y) \/ (k >= 2 /\ Bad(p0.y)) \/ k >= MaxIt(s.a) + 2)) \/ (ErrIs(o, "SamePointError") /\ k >= 2 /\ (REq(p1.y, p0.y) \/ "more" \in s.fl))]
     ELSE IF \E i \in 1 .. k : Zero0(pts[i].y) THEN [Zero |-> \E i \in 1 .. k : Zero0(pts[i].y) /\ Same(pts[i].x, o)]
     ELSE IF k = 1 \/ (k = 2 /\ early /\ \E i \in 1 .. k : Same(pts[i].x, o) /\ Abs(pts[i].y) \prec s.a.ytol)
          THEN [Early |-> early /\ \E i \in 1 .. k : Same(pts[i].x, o) /\ Abs(pts[i].y) \prec s.a.ytol]
     ELSE [Converged |-> SecantDone(s.a, p0, p1),
           Answer |-> IF "eval" \in s.fl THEN Same(o, p1.x) ELSE Near(s, o, SecantNext(s.a, p0, p1)),
           InBounds |-> InBounds(s, o),
           IsRoot |-> (s.fam \in {"cubic", "expm", "sinh"} /\ HasX(s.a) /\ ~({"out", "ytol"} \subseteq s.fl) /\ s.fl \intersect {"xtol", "damp", "noreq", "far"} = {}) => (CloseA(o, s.a.root, "1e-4", "0") \/ (HasY(s.a) /\ Same(p0.x, p1.x)))])]
\* Newton and Halley
Regular(p) == Finite(p.y) /\ Finite(p.d) /\ ~Zero0(p.d)
Stuck(s) == LET k == Len(s.ev) IN (k >= 3 /\ Same(s.ev[k].x, s.ev[k - 1].x) /\ Same(s.ev[k].x, s.ev[k - 2].x)) \/ (k >= 4 /\ Same(s.ev[k].x, s.ev[k - 3].x))
EvalN(s, e) ==
   LET k == Len(s.ev)  p == s.ev[k]  q == [s EXCEPT !.ev = Append(@, P(e)), !.n = @ + 1, !.irr = @ \/ ~Regular(P(e)) \/ ("more" \in s.fl /\ Stuck(s)), !.zero = IF Zero0(e.y) THEN e.x ELSE @] IN
   [st |-> IF "bis" \in s.fl /\ Regular(P(e)) THEN Signed(q, P(e)) ELSE q, bad |-> Broken(
     IF k = 0 THEN [FromGuess |-> Same(e.x, s.a.x0)]
     ELSE [Continues |-> ~Zero0(p.y) /\ ((k = 1 /\ ~Regular(p)) => "more" \in s.fl),
           InBounds |-> InBounds(s, e.x),
           InBracket |-> (Both(s) /\ Regular(p) /\ "more" \notin s.fl) => Between(e.x, s.l.x, s.r.x),
           Newton |-> (Regular(p) /\ ~(s.irr /\ "more" \in s.fl) /\ ~("more" \in s.fl /\ Stuck(s))) => Allowed(s, RawNewton(s.m, s.a, s.fl, p), e.x)])]
EndN(s, e) ==
   LET k == Len(s.ev)  o == e.out  p == s.ev[k]  raw == RawNewton(s.m, s.a, s.fl, p)  x == Clip(s.a, raw)
       atbound == (Given(s.a, "low") /\ REq(p.x, Def(s.a, "low", R("0")))) \/ (Given(s.a, "high") /\ REq(p.x, Def(s.a, "high", R("0")))) IN
   [st |-> s, bad |-> Broken(
     IF k < 1 THEN [Evaluates |-> FALSE]
     ELSE IF IsErr(o) THEN [GivesUp |-> ErrIs(o, "UnconvergedError") /\ (~Regular(p) \/ k >= MaxIt(s.a) \/ Stuck(s) \/ atbound \/ s.irr)]
     ELSE IF Zero0(p.y) THEN [Zero |-> Same(p.x, o)]
     ELSE [Converged |-> ((~Regular(p) \/ Stuck(s) \/ atbound) /\ HasY(s.a) /\ Same(o, p.x) /\ Abs(p.y) \prec s.a.ytol)
                         \/ (s.m = "halley" /\ ~Regular(p) /\ ~HasY(s.a) /\ Same(o, p.x))
                         \/ (Regular(p) /\ (\E y \in ({x} \union (IF Both(s) THEN {Mid(s.l.x, s.r.x)} ELSE {})) :
                               NewtonDone(s.m, s.a, p, y) /\ (IF "eval" \in s.fl THEN Same(o, p.x) ELSE Near(s, o, y)) /\ (HasY(s.a) \/ NewtonDone(s.m, s.a, p, IF y = x THEN raw ELSE y)))),
           InBounds |-> InBounds(s, o),
           IsRoot |-> (s.fam \in {"cubic", "expm", "sinh"} /\ HasX(s.a) /\ ~({"out", "ytol"} \subseteq s.fl) /\ s.fl \intersect {"xtol", "damp", "noreq", "dfun", "far"} = {}) => CloseA(o, s.a.root, "1e-4", "0")])]
\* one-sided secant
EvalO(s, e) ==
   LET flat == e.d IN
   [st |-> [s EXCEPT !.ev = Append(@, Pt(e.x, e.y)), !.n = @ + 1, !.zero = IF Zero0(e.y) THEN e.x ELSE @], bad |-> Broken(
      [NotBeyondFlat |-> IF s.a.x_flat \succ s.a.x0 THEN e.x \preceq s.a.x_flat ELSE e.x \succeq s.a.x_flat])]
EndO(s, e) ==
   LET k == Len(s.ev)  o == e.out  p == s.ev[k] IN
   [st |-> s, bad |-> Broken(
      IF IsErr(o) THEN [GivesUp |-> (ErrIs(o, "UnconvergedError") /\ k >= MaxIt(s.a)) \/ ErrIs(o, "ValueError")]
      ELSE [YTol |-> Same(o, p.x) /\ Abs(p.y) \prec s.a.ytol])]
MyStep(s, e) ==
  CASE e.op = "start" -> [st |-> Start(e), bad |-> {}]
    [] e.op = "eval" -> CASE s.m \in Bracketing -> EvalB(s, e) [] s.m = "secant" -> EvalS(s, e) [] s.m = "onesided" -> EvalO(s, e) [] OTHER -> EvalN(s, e)
    [] e.op = "end" -> CASE s.m \in Bracketing -> EndB(s, e) [] s.m = "secant" -> EndS(s, e) [] s.m = "onesided" -> EndO(s, e) [] OTHER -> EndN(s, e)
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
