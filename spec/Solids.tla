------------------------------- MODULE Solids -------------------------------
(* Dimensions, areas and volumes of the other solids: coils, plates, fins,   *)
(* cooling towers, air coolers, cylinders.  Each solid is determined by a    *)
(* small set of independent dimensions (its parametrisation); everything     *)
(* else is a function of those, whichever dimensions the caller gave.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
pi == "3.141592653589793"
Deg(x) == (x ** "180") // pi
Rad(x) == (x ** pi) // "180"
Sq(x) == x ** x
Disc(d) == (pi ** "0.25") ** Sq(d)

\* ---- argument forms: which subsets of the arguments determine the solid ----
CoilArgs == {"N", "pitch", "H", "H_total", "Do", "Do_total"}
CoilDetermined(S) == (S \cap {"Do", "Do_total"}) # {} /\ Cardinality((S \cap {"N", "pitch"}) \union (IF S \cap {"H", "H_total"} # {} THEN {"H"} ELSE {})) >= 2
PitchArgs == {"angle", "pitch", "pitch_parallel", "pitch_normal"}
PitchDetermined(S) == Cardinality(S) >= 2
TowerArgs == {"D_inlet", "D_base", "D_throat", "H_throat"}
TowerDetermined(S) == (S \cap {"D_inlet", "D_base"}) # {} /\ ("D_throat" \in S \/ "D_inlet" \in S)

\* ---- helical coil: wire of diameter Dt around a cylinder of diameter Do, N turns of pitch p ----
Coil(Dt, Do, N, p) ==
  LET H == N ** p
      circ == pi ** Do
      len == N ** Sqrt(Sq(circ) ++ Sq(p))        \* N times the hypotenuse of one unrolled turn
      tanang == p // circ
  IN [ Do |-> Do, Dt |-> Dt, N |-> N, pitch |-> p, H |-> H, H_total |-> H ++ Dt, Do_total |-> Do ++ Dt,
       tube_circumference |-> circ, tube_length |-> len, surface_area |-> (len ** pi) ** Dt,
       helix_angle |-> Atan(tanang), curvature |-> (Dt // Do) // ("1" ++ Sq(("2" ** pi) ** tanang)),
       total_inlet_area |-> Disc(Dt), total_volume |-> Disc(Dt) ** len ]
CoilInner(Di, len, Dt) ==
     [ inner_surface_area |-> (len ** pi) ** Di, inlet_area |-> Disc(Di), inner_volume |-> Disc(Di) ** len,
       annulus_area |-> Disc(Dt) -- Disc(Di), annulus_volume |-> (Disc(Dt) -- Disc(Di)) ** len ]

\* ---- plate: arc length of one sine wave over its wavelength ----
Enlarge(a, w) == Quad([x \in Reals |-> Sqrt("1" ++ Sq(((("2" ** pi) ** a) // w) ** Cos(x)))], R("0"), "0.5" ** pi) // ("0.5" ** pi)
Plate(a, w) == [ plate_enlargement_factor |-> Enlarge(a, w), D_eq |-> "4" ** a, D_hydraulic |-> ("4" ** a) // Enlarge(a, w), b |-> "2" ** a,
                 plate_corrugation_aspect_ratio |-> ("4" ** a) // w ]

\* ---- rectangular fins: height h, thickness t, spacing s ----
Fin(h, t, s) ==
  LET ww == s -- t  hh == h -- t  P == "2" ** (ww ++ hh) IN
  [ channel_height |-> hh, channel_width |-> ww, fin_count |-> "1" // s, A_channel |-> ww ** hh, P_channel |-> P, Dh |-> ("4" ** (ww ** hh)) // P,
    blockage_ratio |-> (((s ** h) -- (s ** t)) -- (hh ** t)) // (s ** h) ]
\* offset strips of length l
Offset(h, t, s, l) ==
  LET ww == s -- t  hh == h -- t
      A == ("2" ** (((l ** hh) ++ (l ** ww)) ++ (t ** hh))) ++ (t ** (s -- ("2" ** t)))
  IN [ A |-> A, A_channel |-> ww ** hh, Dh |-> (("4" ** l) ** (ww ** hh)) // A, alpha |-> s // h, delta |-> t // l, gamma |-> t // s,
       Dh_Kays_London |-> ("2" ** (ww ** hh)) // (ww ++ hh),
       Dh_Joshi_Webb |-> (("2" ** l) ** (hh ** (s -- ("2" ** t)))) // (((l ** hh) ++ (l ** ww)) ++ (t ** hh)),
       blockage_ratio_Kim |-> "1" -- ((ww ** hh) // (s ** h)), P_channel |-> "2" ** (ww ++ hh), fin_count |-> "1" // s,
       blockage_ratio |-> (("2" ** (t // s)) ** ("1" -- (t // h))) ++ ((t // h) ** ("1" -- ("2" ** (t // s)))) ]

\* ---- hyperbolic tower: two hyperbolas of revolution joined at the throat ----
\* Diameter at height z, given the throat and one other point (zp, dp) of the same branch.
TowerD(zt, dt, zp, dp, z) == dt ** Sqrt("1" ++ (Sq((z -- zt) // (zp -- zt)) ** (Sq(dp // dt) -- "1")))

\* ---- tube pitch of a bank ----
PitchOK(a, p, pp, pn) == CloseA(pn, p ** Sin(Rad(a)), "1e-9", "1e-12" ** p) /\ CloseA(pp, p ** Cos(Rad(a)), "1e-9", "1e-12" ** p) /\ Close(Sq(p), Sq(pp) ++ Sq(pn), "1e-9")

\* ---- air cooler ----
Cooler(c) ==
  LET fd == c.tube_diameter ++ ("2" ** c.fh)
      perTube == (pi ** c.tube_diameter) ** c.tube_length
      showing == perTube ** ("1" -- (c.fin_thickness ** c.dens))
      fin == ("2" ** (Disc(fd) -- Disc(c.tube_diameter))) ++ ((pi ** fd) ** c.fin_thickness)
      finT == (c.dens ** c.tube_length) ** fin
      perBundle == c.tubes_per_row * c.tube_rows
      perBay == perBundle * c.bundles_per_bay
      all == perBay * c.parallel_bays
      gap(d) == (R(Str(c.tubes_per_row)) ** c.tube_length) ** ((d -- c.tube_diameter) -- (("2" ** c.dens) ** (c.fh ** c.fin_thickness)))
      diag == Sqrt(Sq(c.pp) ++ Sq("0.5" ** c.pn))
      amin == RMin("2" ** gap(diag), gap(c.pn))
      face == (c.pn ** c.tube_length) ** (R(Str(c.tubes_per_row)) ++ (IF c.corbels THEN R("0.5") ELSE R("1")))
      lv(x) == <<x ** R("1"), x ** R(Str(c.tubes_per_row)), x ** R(Str(perBundle)), x ** R(Str(perBay)), x ** R(Str(all))>>
  IN [ tubes |-> <<perBundle, perBay, all>>, fin |-> <<c.fh, fd, c.dens, "1" // c.dens, ("1" // c.dens) -- c.fin_thickness>>,
       bare |-> lv(perTube), showing |-> lv(showing), finA |-> <<fin>> \o lv(finT), total |-> lv(showing ++ finT),
       increase |-> (showing ++ finT) // perTube,
       diag |-> diag, amin |-> <<amin, amin ** R(Str(c.bundles_per_bay)), amin ** R(Str(c.bundles_per_bay * c.parallel_bays))>>,
       face |-> <<face, face ** R(Str(c.bundles_per_bay)), face ** R(Str(c.bundles_per_bay * c.parallel_bays))>>,
       contraction |-> amin // face, pitch |-> Sqrt(Sq(c.pp) ++ Sq(c.pn)),
       channels |-> IF c.tube_rows % c.tube_passes = 0 THEN R(Str(perBundle)) // R(Str(c.tube_passes)) ELSE R(Str(c.tubes_per_row)) ]
CoolerBore(c) ==
  LET di == c.tube_diameter -- ("2" ** c.wall)
      perBundle == c.tubes_per_row * c.tube_rows
      perBay == perBundle * c.bundles_per_bay
      all == perBay * c.parallel_bays
      lv(x) == <<x ** R("1"), x ** R(Str(c.tubes_per_row)), x ** R(Str(perBundle)), x ** R(Str(perBay)), x ** R(Str(all))>>
  IN [ Di |-> di, flow |-> lv(Disc(di)), volume |-> lv(Disc(di) ** c.tube_length) ]

\* area of the part of a circle below height h
SegmentArea(h, D) == LET u == "1" -- (("2" ** h) // D) IN (Sq(D) ** "0.25") ** (Acos(u) -- (u ** Sqrt("1" -- Sq(u))))

\* ---- simple solids ----
Simple(w, c) ==
  CASE w = "A_cylinder" -> ((pi ** c.D) ** c.L) ++ ("2" ** Disc(c.D))
    [] w = "V_cylinder" -> Disc(c.D) ** c.L
    [] w = "A_hollow_cylinder" -> ((pi ** (c.Di ++ c.D)) ** c.L) ++ ("2" ** (Disc(c.D) -- Disc(c.Di)))
    [] w = "V_hollow_cylinder" -> (Disc(c.D) -- Disc(c.Di)) ** c.L
    [] w = "A_multiple_hole_cylinder" -> (((pi ** c.D) ** c.L) ++ ("2" ** Disc(c.D))) ++ RSum([j \in 1 .. Len(c.holes) |-> R(Str(c.holes[j][2])) ** (((pi ** c.holes[j][1]) ** c.L) -- ("2" ** Disc(c.holes[j][1])))])
    [] w = "V_multiple_hole_cylinder" -> (Disc(c.D) -- RSum([j \in 1 .. Len(c.holes) |-> R(Str(c.holes[j][2])) ** Disc(c.holes[j][1])])) ** c.L
    [] w = "sphericity" -> \* area of the sphere of the same volume over the area
         ((("4" ** pi) ** (((c.V ** "3") // ("4" ** pi)) ^^ ("2" // "3"))) // c.A)
    [] w = "aspect_ratio" -> c.Dmin // c.Dmax
    [] w = "circularity" -> (("4" ** pi) ** c.A) // Sq(c.P)
    [] OTHER -> "!"
=============================================================================
