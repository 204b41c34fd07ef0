----------------------------- MODULE SolidsTrace -----------------------------
EXTENDS TraceBase, Solids
MyInit(e) == [none |-> 0]
All(o, ref) == {k \in DOMAIN ref : ~CloseA(Get(o, k), ref[k], "1e-9", "1e-13")}
Ok(bad) == [st |-> [none |-> 0], bad |-> bad]
Lv(o, ks) == [j \in 1 .. Len(ks) |-> Get(o, ks[j])]
MyStep(s, e) ==
  IF e.op = "refused" THEN Ok(Broken([RefusesUndetermined |-> ErrIs(e.out, "ValueError")]))
  ELSE IF IsErr(e.out) THEN Ok({"Constructs"})
  ELSE CASE e.op = "coil" -> LET c == e.c  ref == Coil(c.Dt, c.Do, c.N, c.p) IN
              Ok(All(e.out, ref) \union (IF Has(c, "Di") THEN All(e.out, CoilInner(c.Di, ref.tube_length, c.Dt)) ELSE {}))
         [] e.op = "pitch" -> Ok(Broken([PitchGeometry |-> IsSeq(e.out) /\ PitchOK(e.out[1], e.out[2], e.out[3], e.out[4]),
                                         SameBank |-> CloseSeq(e.out, <<e.c.angle, e.c.p, e.c.pp, e.c.pn>>, "1e-7", "1e-9" ** e.c.p)]))
         [] e.op = "plate" -> LET c == e.c  o == e.out  w == Enlarge(c.a, c.w) IN
              Ok(All(o, Plate(c.a, c.w)) \union Broken([
                 Thickness |-> Has(c, "thickness") => Close(Get(o, "thickness"), c.thickness, "1e-12"),
                 Identifier |-> /\ IsSeq(o.name) /\ Len(o.name) = 4 /\ CloseSeq(o.pair, c.pair, "1e-12", "0")
                                /\ CloseA(o.name[1], "1000" ** c.w, "1e-9", "0.0050001") /\ CloseA(o.name[2], "1000" ** c.a, "1e-9", "0.0050001")
                                /\ CloseSeq(<<o.name[3], o.name[4]>>, c.pair, "1e-9", "0"),
                 Angles |-> Close(o.chevron_angle, c.angle, "1e-12") /\ CloseA(o.inclination_angle, "90" -- c.angle, "1e-12", "1e-12"),
                 PlateArea |-> Has(c, "width") /\ Has(c, "length") => Close(Get(o, "A_plate_surface"), (c.width ** c.length) ** w, "1e-9"),
                 TotalPlateArea |-> Has(c, "width") /\ Has(c, "length") /\ Has(c, "plates") => Close(Get(o, "A_heat_transfer"), ((c.width ** c.length) ** w) ** R(Str(c.plates - 2)), "1e-9"),
                 ChannelFlow |-> Has(c, "width") => Close(Get(o, "A_channel_flow"), (c.width ** c.a) ** "2", "1e-12"),
                 PortLength |-> Has(c, "length") /\ Has(c, "d_port") => Close(Get(o, "length_port"), c.length ++ c.d_port, "1e-12"),
                 Channels |-> Has(c, "plates") => Close(Get(o, "channels"), R(Str(c.plates - 1)), "1e-12") /\ Close(Get(o, "channels_per_fluid"), R(Str(c.plates - 1)) // "2", "1e-12") ]))
         [] e.op \in {"fin", "offset"} -> LET c == e.c  o == e.out
                                              n == R(Str(Get(o, "n"))) IN
              Ok(All(o, IF e.op = "fin" THEN Fin(c.h, c.t, c.s) ELSE Offset(c.h, c.t, c.s, c.l)) \union Broken([
                 LayerThickness |-> Has(c, "plate_thickness") => Close(Get(o, "layer_thickness"), c.plate_thickness ++ c.h, "1e-12"),
                 LayerFins |-> Has(c, "length") /\ Has(c, "width") => Abs(Get(o, "layer_fin_count") -- (c.width // c.s)) \preceq "0.5000001" /\ REq(Floor(Get(o, "layer_fin_count")), Get(o, "layer_fin_count")),
                 LayerArea |-> Has(c, "length") /\ Has(c, "width") => Close(Get(o, "A_HX_layer"), (Get(o, "layer_fin_count") ** c.length) ** ("2" ** ((c.h -- c.t) ++ (c.s -- c.t))), "1e-9"),
                 ExchangerArea |-> Has(c, "length") /\ Has(c, "width") /\ Has(c, "layers") => Close(Get(o, "A_HX"), Get(o, "A_HX_layer") ** R(Str(c.layers)), "1e-12"),
                 Volume |-> Has(c, "length") /\ Has(c, "width") /\ Has(c, "layers") /\ Has(c, "plate_thickness") =>
                      LET hh == ((c.plate_thickness ++ c.h) ** R(Str(c.layers))) ++ c.plate_thickness
                      IN Close(Get(o, "height"), hh, "1e-12") /\ Close(Get(o, "volume"), (c.length ** c.width) ** hh, "1e-12") /\ Close(Get(o, "A_specific_HX"), Get(o, "A_HX") // ((c.length ** c.width) ** hh), "1e-12") ]))
         [] e.op = "tower" -> LET c == e.c  o == e.out IN
              Ok(Broken([ TowerGiven |-> \A k \in DOMAIN e.given : Close(Get(o, k), e.given[k], "1e-9"),
                          TowerInlet |-> Close(o.D_inlet, c.D_inlet, "1e-9"), TowerBase |-> Close(o.D_base, c.D_base, "1e-9"),
                          TowerThroat |-> Close(o.D_throat, c.D_throat, "1e-9") /\ Close(o.H_throat, c.H_throat, "1e-9"),
                          TowerProfile |-> \A j \in 1 .. Len(e.zs) : Close(o.profile[j],
                               IF e.zs[j] \preceq c.H_throat THEN TowerD(c.H_throat, c.D_throat, R("0"), c.D_base, e.zs[j])
                               ELSE TowerD(c.H_throat, c.D_throat, c.H_outlet, c.D_outlet, e.zs[j]), "1e-9") ]))
         [] e.op = "cooler" -> LET c == e.c  o == e.out  r == Cooler(c) IN
              Ok(Broken([
                Fans |-> /\ (Has(c, "fan_diameter") => Close(Get(o, "fan_diameter"), c.fan_diameter, "1e-12"))
                         /\ Close(o.fans_per_bay, IF Has(c, "fans_per_bay") THEN c.fans_per_bay ELSE R("1"), "0") /\ Close(o.bundles_per_bay, R(Str(c.bundles_per_bay)), "0") /\ Close(o.parallel_bays, R(Str(c.parallel_bays)), "0"),
                TubeCount |-> CloseSeq(<<o.tubes_per_bundle, o.tubes_per_bay, o.tubes>>, [j \in 1 .. 3 |-> R(Str(r.tubes[j]))], "1e-12", "0"),
                Layout |-> LET w == IF REq(o.angle, "30") THEN <<"triangular", "staggered">> ELSE IF REq(o.angle, "60") THEN <<"rotated triangular", "staggered">>
                                      ELSE IF REq(o.angle, "45") THEN <<"rotated square", "">> ELSE IF REq(o.angle, "90") THEN <<"square", "in-line">> ELSE <<"custom", "custom">>
                           IN Same(o.pitch_str, w[1]) /\ (Same(w[2], "") \/ Same(o.pitch_class, w[2])),
                FinSize |-> CloseSeq(<<o.fin_height, o.fin_diameter, o.fin_density, o.fin_interval, o.bare_length>>, r.fin, "1e-9", "1e-15"),
                BareArea |-> CloseSeq(Lv(o, <<"A_bare_tube_per_tube", "A_bare_tube_per_row", "A_bare_tube_per_bundle", "A_bare_tube_per_bay", "A_bare_tube">>), r.bare, "1e-9", "0"),
                ShowingArea |-> CloseSeq(Lv(o, <<"A_tube_showing_per_tube", "A_tube_showing_per_row", "A_tube_showing_per_bundle", "A_tube_showing_per_bay", "A_tube_showing">>), r.showing, "1e-9", "0"),
                FinArea |-> CloseSeq(Lv(o, <<"A_per_fin", "A_fin_per_tube", "A_fin_per_row", "A_fin_per_bundle", "A_fin_per_bay", "A_fin">>), r.finA, "1e-9", "0"),
                TotalArea |-> CloseSeq(Lv(o, <<"A_per_tube", "A_per_row", "A_per_bundle", "A_per_bay", "A">>), r.total, "1e-9", "0"),
                Increase |-> Close(o.A_increase, r.increase, "1e-9"),
                PitchDiagonal |-> Close(o.pitch_diagonal, r.diag, "1e-9") /\ CloseA(o.pitch_parallel, c.pp, "1e-7", "1e-9") /\ CloseA(o.pitch_normal, c.pn, "1e-7", "1e-9") /\ Close(o.pitch, r.pitch, "1e-9")
                                 /\ Close(o.pitch_ratio ** c.tube_diameter, r.pitch, "1e-9"),
                FreeArea |-> CloseSeq(<<o.A_min_per_bundle, o.A_min_per_bay, o.A_min>>, r.amin, "1e-9", "1e-12"),
                FaceArea |-> CloseSeq(<<o.A_face_per_bundle, o.A_face_per_bay, o.A_face>>, r.face, "1e-9", "0"),
                Contraction |-> CloseA(o.flow_area_contraction_ratio, r.contraction, "1e-9", "1e-12"),
                Channels |-> Close(o.channels, r.channels, "1e-12"),
                Bore |-> Has(c, "wall") => LET b == CoolerBore(c) IN
                    /\ Close(o.Di, b.Di, "1e-9")
                    /\ CloseSeq(Lv(o, <<"A_tube_flow", "A_tube_flow_per_row", "A_tube_flow_per_bundle", "A_tube_flow_per_bay", "A_tube_flow_total">>), b.flow, "1e-9", "0")
                    /\ CloseSeq(Lv(o, <<"tube_volume_per_tube", "tube_volume_per_row", "tube_volume_per_bundle", "tube_volume_per_bay", "tube_volume">>), b.volume, "1e-9", "0") ]))
         [] e.op = "simple" /\ e.what = "circle_segment_h_from_A" -> Ok(Broken([SegmentLevel |-> CloseA(SegmentArea(e.out, e.c.D), e.c.A, "1e-7", "1e-7" ** Sq(e.c.D))]))
         [] e.op = "simple" -> Ok(Broken([SolidFormula |-> Close(e.out, Simple(e.what, e.c), "1e-9")]))
         [] OTHER -> Ok({"UnknownEvent"})
=============================================================================
