----------------------------- MODULE DragTrace -----------------------------
EXTENDS TraceBase, Drag
MyInit(e) == <<>>
Op(r, k, d) == IF Has(r, k) THEN Get(r, k) ELSE d
Meth(a) == IF Has(a, "Method") THEN (IF Same(a.Method, "None") THEN "" ELSE a.Method) ELSE ""
V0(a) == Op(a, "V", R("0"))
Fl(r, k) == IF Has(r, k) THEN IsTrue(Get(r, k)) ELSE FALSE
Within(x, a, b) == x \succeq RMin(a, b) /\ x \preceq RMax(a, b)
Vel(o) == IF IsSeq(o) THEN o[1] ELSE o
Shape(a, o) == IF Fl(a, "distance") THEN IsSeq(o) /\ Len(o) = 2 /\ IsNum(o[1]) /\ IsNum(o[2]) ELSE IsNum(o)
StokesFall(a, o) == LET v == StokesV(a.D, a.rhop, a.rho, a.mu, a.t, V0(a))  x == StokesX(a.D, a.rhop, a.rho, a.mu, a.t, V0(a))  k == Tau(a.D, a.rhop, a.mu)
                        s == RMax(Abs(V0(a)), Abs(VLam(a.D, a.rhop, a.rho, a.mu)))
  IN IF ~Shape(a, o) THEN [Shape |-> FALSE] ELSE
     [Velocity |-> CloseA(Vel(o), v, "1e-8", (s ** "1e-8")), Distance |-> Fl(a, "distance") => CloseA(o[2], x, "1e-7", ((("1e-8" ** s) ** (IF (k \prec a.t) THEN k ELSE a.t)) ++ (("1e-14" ** s) ** k)))]
\* the fall under a drag law: separable, so the time and the way to the reached velocity are integrals over velocity
Fall(a, o, vEnd) == LET m == Meth(a)  v == Vel(o)  u == V0(a)  near == Abs(v -- vEnd) \preceq R("1e-4" ** vEnd)
                      w == IF near THEN (vEnd ** ("1" ++ ("1e-4" ** (IF (u \succ vEnd) THEN "1" ELSE "0" -- "1")))) ELSE v
                      T == TimeTo(m, u, w, a.D, a.rhop, a.rho, a.mu)  X == WayTo(m, u, w, a.D, a.rhop, a.rho, a.mu)
                      dt == (a.t // "999")
                      slack == (((dt ** dt) ** Abs(Acc(m, u, a.D, a.rhop, a.rho, a.mu))) // "4")
  IN IF ~Shape(a, o) THEN [Shape |-> FALSE] ELSE
     [Between |-> Within(v, (u ** ("1" ++ ("1e-6" ** (IF (u \succ vEnd) THEN "1" ELSE "0" -- "1")))), (vEnd ** ("1" ++ (("1e-6" ** (IF (u \prec vEnd) THEN "1" ELSE "0" -- "1")) ** ("0" -- "1"))))) \/ Abs(v -- vEnd) \preceq R("1e-6" ** vEnd),
      Time |-> IF near THEN T \preceq (a.t ** "1.001") \/ Abs(u -- vEnd) \preceq R("1e-3" ** vEnd) ELSE CloseA(T, a.t, "2e-5", ((("2e-6" ** vEnd) ++ "1e-7") // Abs(Acc(m, v, a.D, a.rhop, a.rho, a.mu)))),
      Distance |-> Fl(a, "distance") => IF near THEN Abs(u -- vEnd) \preceq R("1e-3" ** vEnd) \/ CloseA(o[2], (X ++ (vEnd ** (a.t -- T))), "2e-4", slack) ELSE CloseA(o[2], X, "3e-5", (slack ++ ((("2e-6" ** vEnd) ** vEnd) // Abs(Acc(m, v, a.D, a.rhop, a.rho, a.mu)))))]
\* shot downwards much faster than it would fall: still far from terminal velocity at the end
Fired(a, o, vEnd) == LET m == Meth(a)  v == Vel(o)  u == V0(a)  ac == Abs(Acc(m, v, a.D, a.rhop, a.rho, a.mu)) IN
  IF ~Shape(a, o) THEN [Shape |-> FALSE]
  ELSE IF ~((v \prec u) /\ (v \succ vEnd)) THEN [Between |-> FALSE]
  ELSE [Time |-> CloseA(TimeTo(m, u, v, a.D, a.rhop, a.rho, a.mu), a.t, "2e-5", ((("2e-6" ** u) ++ "1e-7") // ac)),
        Distance |-> Fl(a, "distance") => CloseA(o[2], WayTo(m, u, v, a.D, a.rhop, a.rho, a.mu), "1e-4", ((((("2e-6" ** u) ++ "1e-7") ** u) // ac) ++ ((((a.t // "999") ^^ "2") ** Abs(Acc(m, u, a.D, a.rhop, a.rho, a.mu))) // "4")))]
Thrown(a, o) == LET m == Meth(a)  v == Neg(Vel(o))  u == Neg(V0(a))  ac == Abs(AccUp(m, v, a.D, a.rhop, a.rho, a.mu)) IN
  IF ~Shape(a, o) THEN [Shape |-> FALSE]
  ELSE IF ~((v \prec u) /\ (v \succ "0")) THEN [Between |-> FALSE]
  ELSE [Time |-> CloseA(TimeUp(m, u, v, a.D, a.rhop, a.rho, a.mu), a.t, "2e-5", ((("2e-6" ** u) ++ "1e-7") // ac)),
        Distance |-> Fl(a, "distance") => CloseA(Neg(o[2]), WayUp(m, u, v, a.D, a.rhop, a.rho, a.mu), "1e-4", ((((("2e-6" ** u) ++ "1e-7") ** u) // ac) ++ ((((a.t // "999") ^^ "2") ** Abs(AccUp(m, u, a.D, a.rhop, a.rho, a.mu))) // "4")))]
Terminal(a, o) == LET m == Meth(a)  v == VLam(a.D, a.rhop, a.rho, a.mu)  Rl == Rey(v, a.D, a.rho, a.mu)
  IN IF m = "Stokes" \/ Rl \prec "0.01" THEN [Stokes |-> Close(o, v, "1e-10")]
     ELSE [Balances |-> IsNum(o) /\ o \succ "0" /\ Close((o ** o), Balance(m, o, a.D, a.rhop, a.rho, a.mu), "1e-6"), Falls |-> IsNum(o) /\ o \preceq (v ** "1.15")]
TimeStokes(a, o) == LET v == VLam(a.D, a.rhop, a.rho, a.mu)  tol == Op(a, "tol", R("1e-14"))  k == Tau(a.D, a.rhop, a.mu)
                        n == (Ln(Abs("1" -- (a.V0 // v))))
  IN IF tol \succeq "1e-13" THEN [Time |-> CloseA((o // k), (n -- Ln(tol)), "1e-9", ((("2e-15" ** a.rhop) // (a.rhop -- a.rho)) ** (("1" // tol) ++ ("1" // Abs("1" -- (a.V0 // v))))))]
     ELSE [Time |-> (o // k) \succeq (n -- Ln("1e-2")) /\ (o // k) \preceq (n ++ "40")]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  CASE e.op = "cd" -> Stateless([Formula |-> CloseA(o, IF e.corr = "Song_Xu" THEN SongXu(a.Re, Op(a, "sphericity", R("1")), Op(a, "S", R("1"))) ELSE Cd(e.corr, a.Re), "1e-8", "1e-11")])
    [] e.op = "pick" -> Stateless([Dispatch |-> CloseA(o, Cd(Meth(a), a.Re), "1e-8", "1e-11"), Same |-> e.direct = "None" \/ CloseA(o, e.direct, "1e-13", "0")])
    [] e.op = "join" -> Stateless([Joins |-> IsSeq(o) /\ CloseA(o[1], o[2], "0.15", "0")])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, "ValueError")])
    [] e.op = "list" -> Stateless([Listed |-> IsSeq(o) /\ o = Listed(a.Re, IF Has(a, "check_ranges") THEN IsTrue(a.check_ranges) ELSE TRUE)])
    [] e.op = "terminal" -> Stateless(Terminal(a, o))
    [] e.op = "time" -> Stateless(TimeStokes(a, o))
    [] e.op = "laminar" -> Stateless(StokesFall(a, o))
    [] e.op = "fall" -> Stateless(Fall(a, o, e.vinf))
    [] e.op = "fired" -> Stateless(Fired(a, o, e.vinf))
    [] e.op = "thrown" -> Stateless(Thrown(a, o))
    [] e.op = "hold" -> Stateless([Holds |-> CloseA(o[1], e.vinf, "1e-5", "0") /\ CloseA(o[2], (e.vinf ** a.t), "1e-5", "0")])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
