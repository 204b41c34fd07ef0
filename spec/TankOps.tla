------------------------------- MODULE TankOps -------------------------------
(* A vessel as an object with a history: what it answers may depend on how   *)
(* the interpolation table was last built, and on nothing else a client did. *)
(* Geometry comes from module Tank.                                          *)
EXTENDS Tank

\* Area of the free surface at level h: the derivative of the volume.
Width(r, y) == "2" ** Sqrt(RMax(R("0"), Sq(r) -- Sq(y)))
CrossH(kind, D, a, f, k, h) ==
  LET y == h -- ("0.5" ** D) IN
  IF kind = "none" THEN R("0")
  ELSE IF kind = "guppy" THEN GupSlice(D, a, y)
  ELSE LET ps == Pieces(kind, D, a, f, k)
       IN RSum([j \in 1 .. Len(ps) |-> SplitQuad(ps[j], y, [t \in Reals |-> Width(ps[j].rho[t], y) ** ps[j].dz[t]])])
\* Radius of a head of the given depth at axial distance z from the rim.
RadiusAt(kind, D, a, f, k, z) ==
  LET ps == Pieces(kind, D, a, f, k)
      at(p) == LET m == Zero([t \in Reals |-> p.z[t] -- z], p.lo, p.hi) IN IF Finite(m) THEN p.rho[m] ELSE R("0")
  IN RMaxSeq([j \in 1 .. Len(ps) |-> at(ps[j])])
CrossAt(c, h) ==
  IF c.horiz THEN (CrossH(c.A, c.D, c.aA, c.fA, c.kA, h) ++ CrossH(c.B, c.D, c.aB, c.fB, c.kB, h)) ++ (c.L ** Width("0.5" ** c.D, h -- ("0.5" ** c.D)))
  ELSE LET r == IF h \prec c.aA THEN RadiusAt(c.A, c.D, c.aA, c.fA, c.kA, c.aA -- h)
                ELSE IF h \preceq (c.aA ++ c.L) THEN "0.5" ** c.D
                ELSE RadiusAt(c.B, c.D, c.aB, c.fB, c.kB, (h -- c.aA) -- c.L)
       IN pi ** Sq(r)

\* ---- the interpolation table: n levels evenly spaced over the height ----
Knot(c, n, j) == (HMax(c) ** R(Str(j - 1))) // R(Str(n - 1))
\* Monotone interpolation keeps a level between the knots around its volume.
SplineOK(c, n, V, h) ==
  LET hm == HMax(c)
      x == (h // hm) ** R(Str(n - 1))
      lo == RMax(R("0"), Floor(x -- "1e-6"))
      hi == RMin(R(Str(n - 1)), Floor(x ++ "1.000001"))
      tol == "3e-7" ** ScaleV(c)
  IN /\ h \succeq Neg("1e-9" ** hm) /\ h \preceq (hm ** "1.000000001")
     /\ VolAt(c, (lo ** hm) // R(Str(n - 1))) \preceq (V ++ tol)
     /\ VolAt(c, (hi ** hm) // R(Str(n - 1))) \succeq (V -- tol)
=============================================================================
