------------------------------- MODULE Units -------------------------------
(* Quantities with units, and the calls of the library which take them.      *)
EXTENDS Api, UnitData
UnitOf == [n \in {Units[i].n : i \in DOMAIN Units} |-> Units[CHOOSE i \in DOMAIN Units : Units[i].n = n]]
\* the value in base units of a magnitude, and the other way round
Base(m, n) == LET x == UnitOf[n] IN $[ m*(x.s) + (x.o) ]
Into(b, n) == LET x == UnitOf[n] IN $[ (b - (x.o))/(x.s) ]
Convert(m, a, b) == IF a = b THEN m ELSE Into(Base(m, a), b)
Alike(a, b) == UnitOf[a].d = UnitOf[b].d
Alts(n) == SelectSeq(Units, LAMBDA x : x.q = UnitOf[n].q)
-----------------------------------------------------------------------------
(* Functions which solve for whichever argument is left out: the result is   *)
(* measured as that argument is.                                             *)
Missing == [isothermal_gas |-> <<"P1", "P2", "L", "D", "m">>,
            Panhandle_A |-> <<"L", "D", "P1", "P2", "Q">>, Panhandle_B |-> <<"L", "D", "P1", "P2", "Q">>, Weymouth |-> <<"L", "D", "P1", "P2", "Q">>,
            Spitzglass_high |-> <<"L", "D", "P1", "P2", "Q">>, Spitzglass_low |-> <<"L", "D", "P1", "P2", "Q">>, Oliphant |-> <<"L", "D", "P1", "P2", "Q">>,
            Fritzsche |-> <<"L", "D", "P1", "P2", "Q">>, Muller |-> <<"L", "D", "P1", "P2", "Q">>, IGT |-> <<"L", "D", "P1", "P2", "Q">>,
            nu_mu_converter |-> <<"mu", "nu">>, differential_pressure_meter_solver |-> <<"D2", "P1", "P2", "m">>,
            isentropic_work_compression |-> <<"W", "P1", "P2", "eta">>,
            liquid_jet_pump_ancillary |-> <<"d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2">>]
UnitOfArg(n) == CASE n \in {"L", "D", "D2", "d_nozzle", "d_mixing"} -> "m" [] n \in {"P1", "P2"} -> "Pa" [] n \in {"Q", "Qp", "Qs"} -> "m^3/s"
                  [] n = "m" -> "kg/s" [] n = "mu" -> "Pa*s" [] n = "nu" -> "m^2/s" [] n = "W" -> "J/mol" [] OTHER -> "dimensionless"
Given(x) == {x.args[i].n : i \in {i \in DOMAIN x.args : x.args[i].k # "z"}}
JetNames == <<"d_nozzle", "d_mixing", "d_diffuser", "Qp", "Qs", "P1", "P2", "P5", "N", "M", "R", "alpha", "efficiency">>
ResultUnits(x) ==
  IF x.f \in DOMAIN Missing THEN LET lost == SelectSeq(Missing[x.f], LAMBDA n : n \notin Given(x)) IN <<UnitOfArg(lost[1])>>
  ELSE IF x.f = "liquid_jet_pump" THEN <<"m", "m", "m", "m^3/s", "m^3/s", "Pa", "Pa", "Pa", "dimensionless", "dimensionless", "dimensionless", "dimensionless", "dimensionless">>
  ELSE x.units
-----------------------------------------------------------------------------
(* Objects: constructor arguments, what is read from them and what is called *)
(* on them, with the units of each.                                          *)
Ar(n, k, v, u) == [n |-> n, k |-> k, v |-> v, u |-> u]
Rd(n, u) == [n |-> n, u |-> u]
Mt(n, args, u) == [n |-> n, args |-> args, u |-> u]
TankReads == <<Rd("D", "m"), Rd("L", "m"), Rd("V_total", "m^3"), Rd("h_max", "m"), Rd("sideA_V", "m^3"), Rd("sideB_V", "m^3"), Rd("lateral_V", "m^3"), Rd("A", "m^2"), Rd("A_sideA", "m^2"),
  Rd("A_sideB", "m^2"), Rd("A_lateral", "m^2"), Rd("L_over_D", "dimensionless"), Rd("sideA_a", "m"), Rd("sideB_a", "m"), Rd("sideA", "name"), Rd("horizontal", "name"), Rd("sideA_f", "dimensionless"), Rd("V", "m^3")>>
TankCalls == <<Mt("V_from_h", <<Ar("h", "n", "0.3", "m")>>, "m^3"), Mt("SA_from_h", <<Ar("h", "n", "0.3", "m")>>, "m^2"), Mt("A_cross_sectional", <<Ar("h", "n", "0.3", "m")>>, "m^2"),
  Mt("h_from_V", <<Ar("V", "n", "0.5", "m^3")>>, "m"), Mt("add_thickness", <<Ar("thickness", "n", "0.01", "m")>>, "object")>>
Tanks == << <<Ar("D", "n", "1.2", "m"), Ar("L", "n", "4.0", "m"), Ar("horizontal", "b", FALSE, "dimensionless")>>,
            <<Ar("D", "n", "1.2", "m"), Ar("L", "n", "4.0", "m"), Ar("sideA", "s", "conical", "dimensionless"), Ar("sideB", "s", "conical", "dimensionless"), Ar("sideA_a", "n", "0.2", "m"), Ar("sideB_a", "n", "0.3", "m")>>,
            <<Ar("D", "n", "1.2", "m"), Ar("L", "n", "4.0", "m"), Ar("horizontal", "b", FALSE, "dimensionless"), Ar("sideA", "s", "torispherical", "dimensionless"), Ar("sideB", "s", "torispherical", "dimensionless"),
              Ar("sideA_f", "n", "1.0", "dimensionless"), Ar("sideA_k", "n", "0.06", "dimensionless"), Ar("sideB_f", "n", "1.0", "dimensionless"), Ar("sideB_k", "n", "0.06", "dimensionless")>>,
            <<Ar("D", "n", "1.2", "m"), Ar("L", "n", "4.0", "m"), Ar("sideA", "s", "ellipsoidal", "dimensionless"), Ar("sideB", "s", "spherical", "dimensionless"), Ar("sideA_a", "n", "0.2", "m"), Ar("sideB_a", "n", "0.3", "m")>>,
            <<Ar("V", "n", "3.0", "m^3"), Ar("L_over_D", "n", "4.0", "dimensionless")>>, <<Ar("V", "n", "3.0", "m^3"), Ar("D", "n", "1.1", "m")>> >>
Objects ==
  [i \in DOMAIN Tanks |-> [cls |-> "TANK", args |-> Tanks[i], reads |-> TankReads, calls |-> TankCalls]] \o
  << [cls |-> "HelicalCoil", args |-> <<Ar("Do", "n", "30.0", "m"), Ar("H", "n", "20.0", "m"), Ar("pitch", "n", "5.0", "m"), Ar("Dt", "n", "2.0", "m"), Ar("Di", "n", "1.8", "m")>>,
      reads |-> <<Rd("tube_circumference", "m"), Rd("tube_length", "m"), Rd("surface_area", "m^2"), Rd("inner_surface_area", "m^2"), Rd("inlet_area", "m^2"), Rd("inner_volume", "m^3"), Rd("annulus_area", "m^2"),
        Rd("annulus_volume", "m^3"), Rd("total_volume", "m^3"), Rd("helix_angle", "radian"), Rd("curvature", "dimensionless"), Rd("H_total", "m"), Rd("Do_total", "m"), Rd("N", "dimensionless"), Rd("pitch", "m"), Rd("Dt", "m")>>, calls |-> <<>>],
     [cls |-> "PlateExchanger", args |-> <<Ar("amplitude", "n", "0.0005", "m"), Ar("wavelength", "n", "0.0037", "m"), Ar("length", "n", "1.2", "m"), Ar("width", "n", "0.3", "m"), Ar("d_port", "n", "0.05", "m"), Ar("plates", "i", "51", "dimensionless"),
        Ar("chevron_angles", "p", <<"45.0", "60.0">>, "degrees"), Ar("thickness", "n", "0.0006", "m")>>,
      reads |-> <<Rd("chevron_angle", "degrees"), Rd("inclination_angle", "degrees"), Rd("plate_corrugation_aspect_ratio", "dimensionless"), Rd("plate_enlargement_factor", "dimensionless"), Rd("D_eq", "m"), Rd("D_hydraulic", "m"),
        Rd("length_port", "m"), Rd("A_plate_surface", "m^2"), Rd("A_heat_transfer", "m^2"), Rd("A_channel_flow", "m^2"), Rd("channels", "dimensionless"), Rd("channels_per_fluid", "dimensionless"), Rd("amplitude", "m"), Rd("plates", "dimensionless")>>, calls |-> <<>>],
     [cls |-> "RectangularFinExchanger", args |-> <<Ar("fin_height", "n", "0.03", "m"), Ar("fin_thickness", "n", "0.001", "m"), Ar("fin_spacing", "n", "0.012", "m"), Ar("length", "n", "1.5", "m"), Ar("width", "n", "0.7", "m"), Ar("layers", "i", "3", "dimensionless"), Ar("plate_thickness", "n", "0.002", "m")>>,
      reads |-> <<Rd("channel_height", "m"), Rd("channel_width", "m"), Rd("fin_count", "1/m"), Rd("blockage_ratio", "dimensionless"), Rd("A_channel", "m^2"), Rd("P_channel", "m"), Rd("Dh", "m"), Rd("layer_thickness", "m"),
        Rd("layer_fin_count", "dimensionless"), Rd("A_HX_layer", "m^2"), Rd("A_HX", "m^2"), Rd("height", "m"), Rd("volume", "m^3"), Rd("A_specific_HX", "1/m"), Rd("fin_height", "m"), Rd("layers", "dimensionless")>>, calls |-> <<>>],
     [cls |-> "AirCooledExchanger", args |-> <<Ar("tube_rows", "i", "4", "dimensionless"), Ar("tube_passes", "i", "4", "dimensionless"), Ar("tubes_per_row", "i", "56", "dimensionless"), Ar("tube_length", "n", "10.9728", "m"), Ar("tube_diameter", "n", "0.0254", "m"),
        Ar("fin_thickness", "n", "0.00033", "m"), Ar("fin_density", "n", "394.0", "1/m"), Ar("angle", "i", "30", "degrees"), Ar("pitch", "n", "0.0635", "m"), Ar("fin_height", "n", "0.0159", "m"), Ar("tube_thickness", "n", "0.00211", "m"), Ar("bundles_per_bay", "i", "2", "dimensionless"), Ar("parallel_bays", "i", "3", "dimensionless"), Ar("corbels", "b", TRUE, "dimensionless")>>,
      reads |-> <<Rd("bare_length", "m"), Rd("tubes", "dimensionless"), Rd("tubes_per_bundle", "dimensionless"), Rd("pitch_normal", "m"), Rd("pitch_parallel", "m"), Rd("pitch_diagonal", "m"), Rd("A_bare_tube_per_tube", "m^2"), Rd("A_bare_tube", "m^2"),
        Rd("A_tube_showing_per_tube", "m^2"), Rd("A_per_fin", "m^2"), Rd("A_fin_per_bundle", "m^2"), Rd("A_fin", "m^2"), Rd("A_per_bundle", "m^2"), Rd("A", "m^2"), Rd("A_increase", "dimensionless"), Rd("A_tube_flow", "m^2"), Rd("A_tube_flow_total", "m^2"),
        Rd("channels", "dimensionless"), Rd("tube_volume_per_tube", "m^3"), Rd("tube_volume", "m^3"), Rd("A_diagonal_per_bundle", "m^2"), Rd("A_min", "m^2"), Rd("A_face", "m^2"), Rd("A_face_per_bundle", "m^2"), Rd("flow_area_contraction_ratio", "dimensionless"),
        Rd("angle", "degrees"), Rd("pitch_ratio", "dimensionless"), Rd("fin_diameter", "m"), Rd("fin_interval", "m"), Rd("fin_density", "1/m"), Rd("tube_thickness", "m"), Rd("corbels", "name")>>, calls |-> <<>>],
     [cls |-> "HyperbolicCoolingTower", args |-> <<Ar("D_outlet", "n", "89.0", "m"), Ar("H_outlet", "n", "200.0", "m"), Ar("D_inlet", "n", "136.18", "m"), Ar("H_inlet", "n", "14.5", "m"), Ar("D_throat", "n", "85.0", "m"), Ar("H_throat", "n", "150.0", "m"), Ar("n_support", "i", "24", "dimensionless")>>,
      reads |-> <<Rd("b_lower", "m"), Rd("b_upper", "m"), Rd("D_base", "m"), Rd("D_throat", "m"), Rd("H_outlet", "m"), Rd("H_throat", "m"), Rd("n_support", "dimensionless")>>, calls |-> <<Mt("diameter", <<Ar("H", "n", "50.0", "m")>>, "m"), Mt("diameter", <<Ar("H", "n", "185.0", "m")>>, "m")>>],
     [cls |-> "ATMOSPHERE_1976", args |-> <<Ar("Z", "n", "5123.0", "m"), Ar("dT", "n", "0.0", "K")>>,
      reads |-> <<Rd("T", "K"), Rd("P", "Pa"), Rd("rho", "kg/m^3"), Rd("H", "m"), Rd("g", "m/s^2"), Rd("mu", "Pa*s"), Rd("k", "W/m/K"), Rd("v_sonic", "m/s"), Rd("Z", "m")>>,
      calls |-> <<Mt("density", <<Ar("T", "n", "288.6", "K"), Ar("P", "n", "84100.0", "Pa")>>, "kg/m^3"), Mt("gravity", <<Ar("Z", "n", "1000.0", "m")>>, "m/s^2"), Mt("pressure_integral", <<Ar("T1", "n", "288.6", "K"), Ar("P1", "n", "84100.0", "Pa"), Ar("dH", "n", "147.0", "m")>>, "Pa"),
                 Mt("sonic_velocity", <<Ar("T", "n", "300.0", "K")>>, "m/s"), Mt("thermal_conductivity", <<Ar("T", "n", "300.0", "K")>>, "W/m/K"), Mt("viscosity", <<Ar("T", "n", "300.0", "K")>>, "Pa*s")>>],
     [cls |-> "ATMOSPHERE_NRLMSISE00", args |-> <<Ar("Z", "n", "1234.0", "m"), Ar("latitude", "n", "45.0", "degrees"), Ar("longitude", "n", "-30.0", "degrees"), Ar("day", "n", "150.0", "day"), Ar("seconds", "n", "3000.0", "s")>>,
      reads |-> <<Rd("rho", "kg/m^3"), Rd("T", "K"), Rd("P", "Pa"), Rd("N2_density", "1/m^3"), Rd("O2_density", "1/m^3"), Rd("Ar_density", "1/m^3"), Rd("particle_density", "1/m^3"), Rd("Z", "m"), Rd("latitude", "degrees"), Rd("day", "day"), Rd("seconds", "s")>>, calls |-> <<>>] >>
=============================================================================
