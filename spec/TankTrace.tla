------------------------------ MODULE TankTrace ------------------------------
(* Abstract state: the vessel the client built, and the last level asked.    *)
EXTENDS TraceBase, Tank
MyInit(e) == [none |-> 0]

\* The implementation integrates numerically to about 1e-8 of the size of the vessel.
VTol(x, y, c) == CloseA(x, y, "1e-6", "1e-7" ** ScaleV(c))
\* Within 1e-6 of full the area of a guppy head changes like the square root of the ullage, and is less accurate.
NearFullGuppy(c, h) == (c.A = "guppy" \/ c.B = "guppy") /\ h \succ (c.D ** "0.999999")
ATol(x, y, c) == CloseA(x, y, "1e-6", "3e-7" ** ScaleA(c))

Build(e) ==
  LET c == e.c  o == e.out IN
  Broken([ Dimensions |-> Close(o.D, c.D, "1e-12") /\ Close(o.L, c.L, "1e-12") /\ Close(o.L_over_D, c.L // c.D, "1e-12") /\ Close(o.R, c.D // "2", "1e-12"),
           HeadDepths |-> CloseA(o.sideA_a, c.aA, "1e-12", "1e-13") /\ CloseA(o.sideB_a, c.aB, "1e-12", "1e-13"),
           HeadRatios |-> CloseA(o.sideA_a_ratio, c.aA // c.D, "1e-12", "1e-13") /\ CloseA(o.sideB_a_ratio, c.aB // c.D, "1e-12", "1e-13"),
           MaxLevel |-> Close(o.h_max, HMax(c), "1e-12"),
           HeadVolumes |-> VTol(o.V_sideA, HeadTotV(c, "A"), c) /\ VTol(o.V_sideB, HeadTotV(c, "B"), c),
           BodyVolume |-> Close(o.V_lateral, LatV(c), "1e-10"),
           TotalVolume |-> Close(o.V_total, (o.V_sideA ++ o.V_sideB) ++ o.V_lateral, "1e-12"),
           HeadAreas |-> ATol(o.A_sideA, HeadTotA(c, "A"), c) /\ ATol(o.A_sideB, HeadTotA(c, "B"), c),
           HeadExtraAreas |-> /\ CloseA(o.A_sideA_extra, o.A_sideA -- ((pi ** "0.25") ** Sq(c.D)), "1e-10", "1e-11" ** ScaleA(c))
                              /\ CloseA(o.A_sideB_extra, o.A_sideB -- ((pi ** "0.25") ** Sq(c.D)), "1e-10", "1e-11" ** ScaleA(c)),
           GuppyFullWettedArea |-> /\ c.A = "guppy" => ATol(o.A_sideA, HeadAH("guppy", c.D, c.aA, c.fA, c.kA, c.D), c)
                                   /\ c.B = "guppy" => ATol(o.A_sideB, HeadAH("guppy", c.D, c.aB, c.fB, c.kB, c.D), c),
           BodyArea |-> Close(o.A_lateral, LatA(c), "1e-10"),
           TotalArea |-> Close(o.A, (o.A_sideA ++ o.A_sideB) ++ o.A_lateral, "1e-12") ])

\* One stand-alone head function.
HeadFn(e) ==
  LET c == e.c
      sgn == IF c.neg THEN R("-1") ELSE R("1")
      ref == CASE e.what = "VH" -> (IF c.headonly THEN sgn ** HeadVH(c.kind, c.D, c.a, c.f, c.k, RMin(c.h, c.D))
                                  ELSE ((sgn ** "2") ** HeadVH(c.kind, c.D, c.a, c.f, c.k, RMin(c.h, c.D))) ++ (c.L ** SegArea("0.5" ** c.D, RMin(c.h, c.D) -- ("0.5" ** c.D))))
               [] e.what = "VV" -> HeadVV(Flat(c.kind, c.a), c.D, c.a, c.f, c.k, c.h) ++ (((pi ** "0.25") ** Sq(c.D)) ** RMax(R("0"), c.h -- c.a))
               [] e.what = "VVconcave" -> \* liquid above the rim minus the part of the head it surrounds
                     (((pi ** "0.25") ** Sq(c.D)) ** RMax(R("0"), c.h)) -- (HeadVV(c.kind, c.D, c.a, c.f, c.k, c.a) -- HeadVV(c.kind, c.D, c.a, c.f, c.k, c.a -- c.h))
               [] e.what = "AH" -> HeadAH(c.kind, c.D, c.a, c.f, c.k, RMin(RMax(c.h, R("0")), c.D))
               [] e.what = "AV" -> IF Flat(c.kind, c.a) = "none" THEN (pi ** "0.25") ** Sq(c.D) ELSE HeadAV(c.kind, c.D, c.a, c.f, c.k, c.h)
               [] e.what = "AT" -> HeadFullA(c.kind, c.D, c.a, c.f, c.k)
               [] e.what = "depth" -> DepthTori(c.D, c.f, c.k)
               [] e.what = "segment area" -> SegArea("0.5" ** c.D, Clamp(c.h, R("0"), c.D) -- ("0.5" ** c.D))
               [] e.what = "segment arc" -> c.L ** SegArc("0.5" ** c.D, Clamp(c.h, R("0"), c.D) -- ("0.5" ** c.D))
               [] e.what = "sphere volume" -> LET h == Clamp(c.h, R("0"), c.D) IN (pi ** Sq(h)) ** (("0.5" ** c.D) -- (h // "3"))
               [] e.what = "sphere area" -> LET h == Clamp(c.h, R("0"), c.D) IN (pi ** c.D) ** h
               [] OTHER -> "!"
      size == IF e.what \in {"VH", "VV", "VVconcave", "sphere volume"} THEN Sq(c.D) ** ((c.D ++ c.a) ++ c.L) ELSE IF e.what = "depth" THEN c.D ELSE c.D ** ((c.D ++ c.a) ++ c.L)
  IN Broken([HeadGeometry |-> IF e.what = "AH" /\ c.kind = "guppy" /\ c.h \succ (c.D ** "0.999999") THEN Close(e.out, ref, "1e-3") ELSE IF e.what \in {"AH"} THEN CloseA(e.out, ref, "1e-6", "3e-7" ** size) ELSE CloseA(e.out, ref, "1e-6", "1e-7" ** size)])

MyStep(s, e) ==
  IF e.op = "build" THEN [st |-> [c |-> e.c], bad |-> IF IsRec(e.out) THEN Build(e) ELSE {"Constructs"}]
  ELSE IF e.op = "head" THEN [st |-> s, bad |-> HeadFn(e)]
  ELSE IF ~Has(s, "c") THEN [st |-> s, bad |-> {"Order"}]
  ELSE IF e.op = "V_from_h" THEN [st |-> [c |-> s.c, h |-> e.h, v |-> e.out],
       bad |-> Broken([VolumeAtLevel |-> VTol(e.out, VolAt(s.c, e.h), s.c),
                       Monotone |-> Has(s, "v") => (IF e.h \succeq s.h THEN e.out \succeq (s.v -- ("1e-7" ** ScaleV(s.c))) ELSE e.out \preceq (s.v ++ ("1e-7" ** ScaleV(s.c))))])]
  ELSE IF e.op = "SA_from_h" THEN [st |-> s, bad |-> Broken([AreaAtLevel |-> IF NearFullGuppy(s.c, e.h) THEN Close(e.out, AreaAt(s.c, e.h), "1e-3") ELSE ATol(e.out, AreaAt(s.c, e.h), s.c)])]
  ELSE IF e.op = "refused" THEN [st |-> s, bad |-> Broken([RefusesUnknownHead |-> ErrIs(e.out, "ValueError")])]
  ELSE [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
