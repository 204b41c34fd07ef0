-------------------------------- MODULE Tank --------------------------------
(* The geometry of a cylindrical vessel with two heads, from first           *)
(* principles: a head is the solid of revolution of a profile curve (or, for *)
(* the guppy head, a cylinder cut by a plane), and every volume and wetted   *)
(* area is an integral over that solid.  None of the closed forms used by    *)
(* the implementation occur here.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64

pi == "3.141592653589793"
HalfPi == "1.5707963267948966"
Sq(x) == x ** x
Clamp(x, lo, hi) == RMin(RMax(x, lo), hi)

Kinds == {"none", "conical", "ellipsoidal", "spherical", "torispherical", "guppy"}

\* ---- profile of a head: pieces of a curve; z axial distance from the tank end, rho radius ----
\* dz and ds are |dz/dt| and the speed of the curve.
Alpha(f, k) == Asin(("1" -- ("2" ** k)) // ("2" ** (f -- k)))
DepthTori(D, f, k) == LET al == Alpha(f, k) IN ((f ** D) ** ("1" -- Cos(al))) ++ ((k ** D) ** Cos(al))

Pieces(kind, D, a, f, k) ==
  LET Rr == "0.5" ** D IN
  CASE kind = "conical" ->
        << [lo |-> R("0"), hi |-> R("1"), rho |-> [t \in Reals |-> Rr ** ("1" -- t)], z |-> [t \in Reals |-> a ** t],
            dz |-> [t \in Reals |-> a], ds |-> [t \in Reals |-> Sqrt(Sq(Rr) ++ Sq(a))]] >>
    [] kind = "ellipsoidal" ->
        << [lo |-> R("0"), hi |-> R(HalfPi), rho |-> [t \in Reals |-> Rr ** Cos(t)], z |-> [t \in Reals |-> a ** Sin(t)],
            dz |-> [t \in Reals |-> a ** Cos(t)], ds |-> [t \in Reals |-> Sqrt(Sq(Rr ** Sin(t)) ++ Sq(a ** Cos(t)))]] >>
    [] kind = "spherical" ->
        LET r == (Sq(Rr) ++ Sq(a)) // ("2" ** a)
            th0 == RMin(R(HalfPi), Asin(RMin(R("1"), Rr // r)))
        IN << [lo |-> R("0"), hi |-> th0, rho |-> [t \in Reals |-> r ** Sin(t)], z |-> [t \in Reals |-> a -- (r ** ("1" -- Cos(t)))],
               dz |-> [t \in Reals |-> r ** Sin(t)], ds |-> [t \in Reals |-> r]] >>
    [] kind = "torispherical" ->
        LET al == Alpha(f, k)  kD == k ** D  fD == f ** D  aa == DepthTori(D, f, k)
        IN << [lo |-> R("0"), hi |-> HalfPi -- al, rho |-> [t \in Reals |-> (Rr -- kD) ++ (kD ** Cos(t))], z |-> [t \in Reals |-> kD ** Sin(t)],
               dz |-> [t \in Reals |-> kD ** Cos(t)], ds |-> [t \in Reals |-> kD]],
              [lo |-> R("0"), hi |-> al, rho |-> [t \in Reals |-> fD ** Sin(t)], z |-> [t \in Reals |-> aa -- (fD ** ("1" -- Cos(t)))],
               dz |-> [t \in Reals |-> fD ** Sin(t)], ds |-> [t \in Reals |-> fD]] >>
    [] OTHER -> <<>>

\* ---- circle of radius r filled to the level y above its centre ----
SegArea(r, y) == IF y \succeq r THEN pi ** Sq(r) ELSE IF y \preceq Neg(r) THEN R("0")
                 ELSE (Sq(r) ** Acos(Neg(y) // r)) ++ (y ** Sqrt(Sq(r) -- Sq(y)))
SegArc(r, y) == IF y \succeq r THEN ("2" ** pi) ** r ELSE IF y \preceq Neg(r) THEN R("0") ELSE ("2" ** r) ** Acos(Neg(y) // r)

\* Integral over one piece of F(rho, t) dt, split where the level meets the rim of the cross section.
SplitQuad(p, y, G) ==
  LET m == Zero([t \in Reals |-> p.rho[t] -- Abs(y)], p.lo, p.hi)
  IN IF Finite(m) THEN Quad(G, p.lo, m) ++ Quad(G, m, p.hi) ELSE Quad(G, p.lo, p.hi)

\* ---- guppy head: the surface z = a (R^2 - x^2 - y^2) / (2R (R - y)), x across, y up, which reaches a at the top ----
\* Horizontal slices are parabolic segments of width 2 sqrt(R^2-y^2) and height a (R+y)/(2R).
GupSlice(D, a, y) == LET Rr == "0.5" ** D IN (("4" // "3") ** Sqrt(RMax(R("0"), Sq(Rr) -- Sq(y)))) ** ((a ** (Rr ++ y)) // D)
\* Area of the part below y; with x = (R-y) tan(u), integrated first over y.
GupArea(D, a, y) ==
  LET Rr == "0.5" ** D  c2 == Sq(a // D)  q == Sq(Rr -- y)
      um == Acos(Sqrt(RMax(R("0"), (Rr -- y) // D)))
  IN Quad([u \in Reals |-> LET c4 == Cos(u) ^^ "4" IN Sqrt(c4 ++ c2) ** (Sq(D) -- (q // c4))], R("0"), um)
\* The published total area of a guppy head is that of another solid, a cylinder cut by a plane.
GupCutArea(D, a) == (((pi ** "0.25") ** D) ** Sqrt(Sq(a) ++ Sq(D))) ++ (((pi ** "0.5") ** D) ** a)

\* ---- horizontal: one head filled to height h (0 <= h <= D) ----
HeadVH(kind, D, a, f, k, h) ==
  LET Rr == "0.5" ** D  y == h -- Rr IN
  IF kind = "none" THEN R("0")
  ELSE IF kind = "guppy" THEN Quad([s \in Reals |-> GupSlice(D, a, s)], Neg(Rr), y)
  ELSE LET ps == Pieces(kind, D, a, f, k)
       IN RSum([j \in 1 .. Len(ps) |-> SplitQuad(ps[j], y, [t \in Reals |-> SegArea(ps[j].rho[t], y) ** ps[j].dz[t]])])
HeadAH(kind, D, a, f, k, h) ==
  LET Rr == "0.5" ** D  y == h -- Rr IN
  IF kind = "none" THEN SegArea(Rr, y)
  ELSE IF kind = "guppy" THEN (IF y \preceq Neg(Rr) THEN R("0") ELSE GupArea(D, a, y))
  ELSE LET ps == Pieces(kind, D, a, f, k)
       IN RSum([j \in 1 .. Len(ps) |-> SplitQuad(ps[j], y, [t \in Reals |-> SegArc(ps[j].rho[t], y) ** ps[j].ds[t]])])

\* ---- vertical: one head pointing down, filled to height h above its apex (0 <= h <= depth) ----
\* Integral of G over the part of the head at axial distance z >= depth - h.
Below(ps, depth, h, G(_, _)) ==
  RSum([j \in 1 .. Len(ps) |->
     LET p == ps[j]
         zl == p.z[p.lo]  zh == p.z[p.hi]  cut == depth -- h
         m == Zero([t \in Reals |-> p.z[t] -- cut], p.lo, p.hi)
         Gt == [t \in Reals |-> G(p, t)]
     IN IF Finite(m) THEN (IF zl \succ zh THEN Quad(Gt, p.lo, m) ELSE Quad(Gt, m, p.hi))
        ELSE IF RMin(zl, zh) \succeq cut THEN Quad(Gt, p.lo, p.hi) ELSE R("0")])
VolEl(p, t) == (pi ** Sq(p.rho[t])) ** p.dz[t]
AreaEl(p, t) == (("2" ** pi) ** p.rho[t]) ** p.ds[t]
HeadVV(kind, D, a, f, k, h) ==
  IF kind = "none" \/ h \preceq "0" THEN R("0") ELSE Below(Pieces(kind, D, a, f, k), a, RMin(h, a), VolEl)
HeadAV(kind, D, a, f, k, h) ==
  IF kind = "none" \/ h \preceq "0" THEN R("0") ELSE Below(Pieces(kind, D, a, f, k), a, RMin(h, a), AreaEl)

\* ---- the vessel: record c with D, L, horiz, A, B (kinds), aA, aB, fA, kA, fB, kB ----
\* A head of no depth is a flat end.
Flat(k, a) == IF k # "guppy" /\ a \preceq "0" THEN "none" ELSE k
HeadTotV(c, s) == IF c.horiz THEN (IF s = "A" THEN HeadVH(c.A, c.D, c.aA, c.fA, c.kA, c.D) ELSE HeadVH(c.B, c.D, c.aB, c.fB, c.kB, c.D))
                  ELSE (IF s = "A" THEN HeadVV(Flat(c.A, c.aA), c.D, c.aA, c.fA, c.kA, c.aA) ELSE HeadVV(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB, c.aB))
HeadFullA(kind, D, a, f, k) == IF kind = "guppy" THEN GupCutArea(D, a) ELSE HeadAH(kind, D, a, f, k, D)
HeadTotA(c, s) == IF s = "A" THEN HeadFullA(Flat(c.A, c.aA), c.D, c.aA, c.fA, c.kA) ELSE HeadFullA(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB)
HMax(c) == IF c.horiz THEN c.D ELSE c.L ++ (c.aA ++ c.aB)
LatV(c) == ((pi ** "0.25") ** Sq(c.D)) ** c.L
LatA(c) == (pi ** c.D) ** c.L

VolAt(c, h0) ==
  LET h == RMax(R("0"), RMin(h0, HMax(c))) IN
  IF c.horiz THEN (HeadVH(c.A, c.D, c.aA, c.fA, c.kA, h) ++ HeadVH(c.B, c.D, c.aB, c.fB, c.kB, h)) ++ (c.L ** SegArea("0.5" ** c.D, h -- ("0.5" ** c.D)))
  ELSE (HeadVV(Flat(c.A, c.aA), c.D, c.aA, c.fA, c.kA, h) ++ (((pi ** "0.25") ** Sq(c.D)) ** Clamp(h -- c.aA, R("0"), c.L)))
       ++ (IF h \succ (c.aA ++ c.L) THEN HeadVV(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB, c.aB) -- HeadVV(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB, c.aB -- ((h -- c.aA) -- c.L)) ELSE R("0"))

\* Wetted area.  A flat end counts as wetted: at the bottom always, on top only when full.
AreaAt(c, h0) ==
  LET h == RMax(R("0"), RMin(h0, HMax(c))) IN
  IF c.horiz THEN (HeadAH(c.A, c.D, c.aA, c.fA, c.kA, h) ++ HeadAH(c.B, c.D, c.aB, c.fB, c.kB, h)) ++ (c.L ** SegArc("0.5" ** c.D, h -- ("0.5" ** c.D)))
  ELSE (IF Flat(c.A, c.aA) = "none" THEN (pi ** "0.25") ** Sq(c.D) ELSE HeadAV(Flat(c.A, c.aA), c.D, c.aA, c.fA, c.kA, h))
       ++ ((LatA(c) ** (Clamp(h -- c.aA, R("0"), c.L) // c.L))
       ++ (IF Flat(c.B, c.aB) = "none" THEN (IF h \succeq HMax(c) THEN (pi ** "0.25") ** Sq(c.D) ELSE R("0"))
           ELSE IF h \succ (c.aA ++ c.L) THEN HeadAV(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB, c.aB) -- HeadAV(Flat(c.B, c.aB), c.D, c.aB, c.fB, c.kB, c.aB -- ((h -- c.aA) -- c.L))
           ELSE R("0")))

\* Cross section of the liquid surface: the derivative of the volume, from the same integrals.
ScaleV(c) == Sq(c.D) ** (c.L ++ c.D)
ScaleA(c) == c.D ** (c.L ++ c.D)
=============================================================================
