---- MODULE ApiData ----
\* The public functions: arguments with the values of their documented examples and documented units, kind and units of the result,
\* and whether the function can be compiled.
Api == <<
  [f |-> "API520_A_g", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "6.741666666666666", u |-> "kg/s"], [n |-> "T", k |-> "n", v |-> "348.0", u |-> "K"], [n |-> "Z", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "MW", k |-> "n", v |-> "51.0", u |-> "g/mol"], [n |-> "k", k |-> "n", v |-> "1.11", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "670000.0", u |-> "Pa"], [n |-> "Kb", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "Kc", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "API520_A_g", i |-> "1", args |-> <<[n |-> "m", k |-> "n", v |-> "6.741666666666666", u |-> "kg/s"], [n |-> "T", k |-> "n", v |-> "348.0", u |-> "K"], [n |-> "Z", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "MW", k |-> "n", v |-> "51.0", u |-> "g/mol"], [n |-> "k", k |-> "n", v |-> "1.11", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "670000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "532000.0", u |-> "Pa"], [n |-> "Kd", k |-> "n", v |-> "0.975", u |-> "dimensionless"], [n |-> "Kb", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "Kc", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "API520_A_steam", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "19.3375", u |-> "kg/s"], [n |-> "T", k |-> "n", v |-> "592.5", u |-> "K"], [n |-> "P1", k |-> "n", v |-> "12236000.0", u |-> "Pa"], [n |-> "Kd", k |-> "n", v |-> "0.975", u |-> "dimensionless"], [n |-> "Kb", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "Kc", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "edition", k |-> "s", v |-> "7E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "API520_A_steam", i |-> "1", args |-> <<[n |-> "m", k |-> "n", v |-> "19.3375", u |-> "kg/s"], [n |-> "T", k |-> "n", v |-> "707.0389", u |-> "K"], [n |-> "P1", k |-> "n", v |-> "12236000.0", u |-> "Pa"], [n |-> "Kd", k |-> "n", v |-> "0.975", u |-> "dimensionless"], [n |-> "Kb", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "Kc", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "edition", k |-> "s", v |-> "10E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "API520_B", i |-> "0", args |-> <<[n |-> "Pset", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "Pback", k |-> "n", v |-> "500000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_C", i |-> "0", args |-> <<[n |-> "k", k |-> "n", v |-> "1.35", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_F2", i |-> "0", args |-> <<[n |-> "k", k |-> "n", v |-> "1.8", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "700000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_Kv", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "100", u |-> "dimensionless"], [n |-> "edition", k |-> "s", v |-> "7E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_Kv", i |-> "1", args |-> <<[n |-> "Re", k |-> "i", v |-> "4525", u |-> "dimensionless"], [n |-> "edition", k |-> "s", v |-> "10E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_Kv", i |-> "2", args |-> <<[n |-> "Re", k |-> "i", v |-> "2110", u |-> "dimensionless"], [n |-> "edition", k |-> "s", v |-> "7E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_N", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "10500000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_SH", i |-> "0", args |-> <<[n |-> "T1", k |-> "n", v |-> "866.15", u |-> "K"], [n |-> "P1", k |-> "n", v |-> "1066325.0", u |-> "Pa"], [n |-> "edition", k |-> "s", v |-> "7E", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_W", i |-> "0", args |-> <<[n |-> "Pset", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "Pback", k |-> "n", v |-> "300000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_W", i |-> "1", args |-> <<[n |-> "Pset", k |-> "i", v |-> "1825014", u |-> "Pa"], [n |-> "Pback", k |-> "i", v |-> "446062", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "API520_round_size", i |-> "0", args |-> <<[n |-> "A", k |-> "n", v |-> "0.0001", u |-> "m^2"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "API521_noise", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "14.6", u |-> "kg/s"], [n |-> "P1", k |-> "n", v |-> "330000.0", u |-> "Pa"], [n |-> "P2", k |-> "i", v |-> "101325", u |-> "Pa"], [n |-> "c", k |-> "n", v |-> "353.0", u |-> "m/s"], [n |-> "r", k |-> "i", v |-> "30", u |-> "m"]>>, ret |-> "number", units |-> <<"decibels">>, jit |-> TRUE],
  [f |-> "API521_noise_graph", i |-> "0", args |-> <<[n |-> "P_ratio", k |-> "n", v |-> "2.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"decibels">>, jit |-> TRUE],
  [f |-> "A_cylinder", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "L", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "A_hollow_cylinder", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.005", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "L", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "A_partial_circle", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "96.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "22.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "Almedeij", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Alshul_1952", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Archimedes", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "0.002", u |-> "m"], [n |-> "rhof", k |-> "n", v |-> "2.0", u |-> "kg/m^3"], [n |-> "rhop", k |-> "i", v |-> "3000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Armand", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Avci_Karagoz_2009", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Bankoff", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Barati", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Barati_high", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Baroczy", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Baroczy_Chisholm", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Barr_1981", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Beattie_Whalley", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Beggs_Brill", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "P", k |-> "n", v |-> "10000000.0", u |-> "Pa"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "0", u |-> "degrees"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Bejan_L", i |-> "0", args |-> <<[n |-> "dP", k |-> "n", v |-> "10000.0", u |-> "Pa"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "alpha", k |-> "n", v |-> "1e-06", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Bejan_p", i |-> "0", args |-> <<[n |-> "dP", k |-> "n", v |-> "10000.0", u |-> "Pa"], [n |-> "K", k |-> "i", v |-> "1", u |-> "m^2"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "alpha", k |-> "n", v |-> "1e-06", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Biot", i |-> "0", args |-> <<[n |-> "h", k |-> "n", v |-> "1000.0", u |-> "W/m^2/K"], [n |-> "L", k |-> "n", v |-> "1.2", u |-> "m"], [n |-> "k", k |-> "n", v |-> "300.0", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Biot", i |-> "1", args |-> <<[n |-> "h", k |-> "n", v |-> "10000.0", u |-> "W/m^2/K"], [n |-> "L", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "k", k |-> "n", v |-> "4000.0", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Blasius", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "10000", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Boiling", i |-> "0", args |-> <<[n |-> "G", k |-> "i", v |-> "300", u |-> "kg/m^2/s"], [n |-> "q", k |-> "i", v |-> "3000", u |-> "W/m^2"], [n |-> "Hvap", k |-> "i", v |-> "800000", u |-> "J/kg"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Bond", i |-> "0", args |-> <<[n |-> "rhol", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.0589", u |-> "N/m"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Brauer", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Brkic_2011_1", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Brkic_2011_2", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Buzzelli_2008", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C2F", i |-> "0", args |-> <<[n |-> "C", k |-> "n", v |-> "-40.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C2K", i |-> "0", args |-> <<[n |-> "C", k |-> "i", v |-> "-40", u |-> "degC"]>>, ret |-> "number", units |-> <<"K">>, jit |-> TRUE],
  [f |-> "C2R", i |-> "0", args |-> <<[n |-> "C", k |-> "i", v |-> "-40", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "COV_motionless_mixer", i |-> "0", args |-> <<[n |-> "Ki", k |-> "n", v |-> "0.33", u |-> "dimensionless"], [n |-> "Q1", k |-> "n", v |-> "11.7", u |-> "m^3/s"], [n |-> "Q2", k |-> "n", v |-> "2.74", u |-> "m^3/s"], [n |-> "pipe_diameters", k |-> "n", v |-> "6.220472440944882", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "CSA_motor_efficiency", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "37285.0", u |-> "W"], [n |-> "closed", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "poles", k |-> "i", v |-> "4", u |-> "dimensionless"], [n |-> "high_efficiency", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Chezy_to_n_Manning", i |-> "0", args |-> <<[n |-> "C", k |-> "n", v |-> "26.15", u |-> "m^0.5/s"], [n |-> "Rh", k |-> "i", v |-> "5", u |-> "m"]>>, ret |-> "number", units |-> <<"s/m^(1/3)">>, jit |-> TRUE],
  [f |-> "C_ISA_1932_nozzle", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0422", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.8e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.1", u |-> "kg/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Miller_1996", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "flange", u |-> "dimensionless"], [n |-> "subtype", k |-> "s", v |-> "orifice", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Miller_1996", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "D and D/2", u |-> "dimensionless"], [n |-> "subtype", k |-> "s", v |-> "orifice", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Miller_1996", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "corner", u |-> "dimensionless"], [n |-> "subtype", k |-> "s", v |-> "orifice", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Miller_1996", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "pipe", u |-> "dimensionless"], [n |-> "subtype", k |-> "s", v |-> "orifice", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Reader_Harris_Gallagher", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "flange", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Reader_Harris_Gallagher", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "D and D/2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Reader_Harris_Gallagher", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.165", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.85e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.12", u |-> "kg/s"], [n |-> "taps", k |-> "s", v |-> "corner", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_Reader_Harris_Gallagher_wet_venturi_tube", i |-> "0", args |-> <<[n |-> "mg", k |-> "n", v |-> "5.31926", u |-> "kg/s"], [n |-> "ml", k |-> "n", v |-> "2.65963", u |-> "kg/s"], [n |-> "rhog", k |-> "n", v |-> "50.0", u |-> "kg/m^3"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.06", u |-> "m"], [n |-> "H", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_eccentric_orifice_ISO_15377_1998", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.075", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_long_radius_nozzle", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0422", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.8e-05", u |-> "Pa*s"], [n |-> "m", k |-> "n", v |-> "0.1", u |-> "kg/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_quarter_circle_orifice_ISO_15377_1998", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.075", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_venturi_nozzle", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07391", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0422", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_wedge_meter_ISO_5167_6_2017", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1524", u |-> "m"], [n |-> "H", k |-> "n", v |-> "0.045720000000000004", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "C_wedge_meter_Miller", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1524", u |-> "m"], [n |-> "H", k |-> "n", v |-> "0.045720000000000004", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Capillary", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.2", u |-> "m/s"], [n |-> "mu", k |-> "n", v |-> "0.01", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.1", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Carman", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Cavitation", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "Psat", k |-> "n", v |-> "10000.0", u |-> "Pa"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "V", k |-> "i", v |-> "10", u |-> "m/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Ceylan", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Chen_1979", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Chen_Friedel", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.0005", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "950.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.4", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Cheng", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Chisholm", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Chisholm_Armand", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Chisholm_voidage", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Churchill_1973", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Churchill_1977", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Cicchitti", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Clamond", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Clift", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Clift_Gauvin", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Colebrook", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Confinement", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhol", k |-> "i", v |-> "1077", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "76.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.00427", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Corripio_motor_efficiency", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "102160.90000000001", u |-> "W"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Corripio_pump_efficiency", i |-> "0", args |-> <<[n |-> "Q", k |-> "n", v |-> "0.029084580800025336", u |-> "m^3/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Cv_char_equal_percentage", i |-> "0", args |-> <<[n |-> "opening", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<>>, jit |-> TRUE],
  [f |-> "Cv_char_linear", i |-> "0", args |-> <<[n |-> "opening", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<>>, jit |-> TRUE],
  [f |-> "Cv_char_quick_opening", i |-> "0", args |-> <<[n |-> "opening", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<>>, jit |-> TRUE],
  [f |-> "Cv_to_K", i |-> "0", args |-> <<[n |-> "Cv", k |-> "n", v |-> "2.712", u |-> "gallons/minute"], [n |-> "D", k |-> "n", v |-> "0.015", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Cv_to_Kv", i |-> "0", args |-> <<[n |-> "Cv", k |-> "n", v |-> "2.312", u |-> "gallons/minute"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> TRUE],
  [f |-> "Darby3K", i |-> "0", args |-> <<[n |-> "NPS", k |-> "n", v |-> "2.0", u |-> "in"], [n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "name", k |-> "s", v |-> "Valve, Angle valve, 45°, full line size, β = 1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Darby3K", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.05248", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "name", k |-> "s", v |-> "Valve, Angle valve, 45°, full line size, β = 1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Darby3K", i |-> "2", args |-> <<[n |-> "NPS", k |-> "n", v |-> "12.0", u |-> "in"], [n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "K1", k |-> "i", v |-> "950", u |-> "dimensionless"], [n |-> "Ki", k |-> "n", v |-> "0.25", u |-> "dimensionless"], [n |-> "Kd", k |-> "i", v |-> "4", u |-> "in"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Dean", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "10000", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "D", k |-> "n", v |-> "0.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Dix", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Domanski_Didion", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Drag", i |-> "0", args |-> <<[n |-> "F", k |-> "i", v |-> "1000", u |-> "N"], [n |-> "A", k |-> "n", v |-> "0.0001", u |-> "m^2"], [n |-> "V", k |-> "i", v |-> "5", u |-> "m/s"], [n |-> "rho", k |-> "i", v |-> "2000", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Duckler", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Eck_1973", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Eckert", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "10", u |-> "m/s"], [n |-> "Cp", k |-> "n", v |-> "2000.0", u |-> "J/kg/K"], [n |-> "dT", k |-> "n", v |-> "25.0", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Engelund_Hansen", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Eotvos", i |-> "0", args |-> <<[n |-> "rhol", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.0589", u |-> "N/m"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Erdim_Akgiray_Demir", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Ergun", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Euler", i |-> "0", args |-> <<[n |-> "dP", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "V", k |-> "i", v |-> "4", u |-> "m/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "F2C", i |-> "0", args |-> <<[n |-> "F", k |-> "n", v |-> "-40.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "F2K", i |-> "0", args |-> <<[n |-> "F", k |-> "i", v |-> "-40", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "F2R", i |-> "0", args |-> <<[n |-> "F", k |-> "i", v |-> "100", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "FF_critical_pressure_ratio_l", i |-> "0", args |-> <<[n |-> "Psat", k |-> "n", v |-> "70100.0", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "22120000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Fahien_Schriver", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Fang_2011", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Fauske", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Flemmer_Banks", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Fourar_Bories", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Fourier_heat", i |-> "0", args |-> <<[n |-> "t", k |-> "n", v |-> "1.5", u |-> "s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "Cp", k |-> "n", v |-> "4000.0", u |-> "J/kg/K"], [n |-> "k", k |-> "n", v |-> "0.6", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Fourier_heat", i |-> "1", args |-> <<[n |-> "t", k |-> "n", v |-> "1.5", u |-> "s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "alpha", k |-> "n", v |-> "1e-07", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Fourier_mass", i |-> "0", args |-> <<[n |-> "t", k |-> "n", v |-> "1.5", u |-> "s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "D", k |-> "n", v |-> "1e-09", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Friedel", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Fritzsche", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Froude", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.83", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "g", k |-> "n", v |-> "1.63", u |-> "m/s^2"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Froude", i |-> "1", args |-> <<[n |-> "V", k |-> "n", v |-> "1.83", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "squared", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Froude_densimetric", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.83", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "rho1", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rho2", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "g", k |-> "n", v |-> "9.81", u |-> "m/s^2"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Froude_densimetric", i |-> "1", args |-> <<[n |-> "V", k |-> "n", v |-> "1.83", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "rho1", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rho2", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "g", k |-> "n", v |-> "9.81", u |-> "m/s^2"], [n |-> "heavy", k |-> "b", v |-> FALSE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Geldart_Ling", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "1.0", u |-> "kg/s"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "mug", k |-> "n", v |-> "2e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Graetz_heat", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"], [n |-> "D", k |-> "n", v |-> "0.25", u |-> "m"], [n |-> "x", k |-> "i", v |-> "5", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "Cp", k |-> "n", v |-> "2200.0", u |-> "J/kg/K"], [n |-> "k", k |-> "n", v |-> "0.6", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Graetz_heat", i |-> "1", args |-> <<[n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"], [n |-> "D", k |-> "n", v |-> "0.25", u |-> "m"], [n |-> "x", k |-> "i", v |-> "5", u |-> "m"], [n |-> "alpha", k |-> "n", v |-> "1e-07", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Graf", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Graham", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Grashof", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "0.9144", u |-> "m"], [n |-> "beta", k |-> "n", v |-> "0.000933", u |-> "1/K"], [n |-> "T1", k |-> "n", v |-> "178.2", u |-> "K"], [n |-> "rho", k |-> "n", v |-> "1.1613", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.9e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Grashof", i |-> "1", args |-> <<[n |-> "L", k |-> "n", v |-> "0.9144", u |-> "m"], [n |-> "beta", k |-> "n", v |-> "0.000933", u |-> "1/K"], [n |-> "T1", k |-> "n", v |-> "378.2", u |-> "K"], [n |-> "T2", k |-> "i", v |-> "200", u |-> "K"], [n |-> "nu", k |-> "n", v |-> "1.636e-05", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Gregory_Scott", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Gronnerud", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Guo_Sun", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0142", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.492", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.6", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Dt", k |-> "n", v |-> "0.0409", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Guzhov", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Haaland", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Hagen", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "2610", u |-> "dimensionless"], [n |-> "fd", k |-> "n", v |-> "1.935235", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Haider_Levenspiel", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Harms", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Harrison_Brunner_Hecker", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Dt", k |-> "n", v |-> "0.01", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Hicks", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Hooper2K", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "2.0", u |-> "in"], [n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "name", k |-> "s", v |-> "Valve, Globe, Standard", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Hooper2K", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "2.0", u |-> "in"], [n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "K1", k |-> "i", v |-> "900", u |-> "dimensionless"], [n |-> "Kinfty", k |-> "i", v |-> "4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Huq_Loth", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Hwang_Kim", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.0005", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "IGT", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Idelchik", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Jain_1976", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Jakob", i |-> "0", args |-> <<[n |-> "Cp", k |-> "n", v |-> "4000.0", u |-> "J/kg/K"], [n |-> "Hvap", k |-> "n", v |-> "2000000.0", u |-> "J/kg"], [n |-> "Te", k |-> "n", v |-> "10.0", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Jones_Krier", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Jung_Radermacher", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "K2C", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "233.15", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K2F", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "233.15", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K2R", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "273.15", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "KTA", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "K_Souders_Brown_theoretical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.00015", u |-> "m"], [n |-> "Cd", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "K_Sounders_Brown_theoretical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.00015", u |-> "m"], [n |-> "Cd", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "K_Sounders_Brown_theoretical", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.00015", u |-> "m"], [n |-> "Cd", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "K_angle_stop_check_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "style", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_angle_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_ball_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "50", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_branch_converging_Crane", i |-> "0", args |-> <<[n |-> "D_run", k |-> "n", v |-> "0.1023", u |-> "m"], [n |-> "D_branch", k |-> "n", v |-> "0.1023", u |-> "m"], [n |-> "Q_run", k |-> "n", v |-> "0.018917", u |-> "m^3/s"], [n |-> "Q_branch", k |-> "n", v |-> "0.00633", u |-> "m^3/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_branch_diverging_Crane", i |-> "0", args |-> <<[n |-> "D_run", k |-> "n", v |-> "0.146", u |-> "m"], [n |-> "D_branch", k |-> "n", v |-> "0.146", u |-> "m"], [n |-> "Q_run", k |-> "n", v |-> "0.02525", u |-> "m^3/s"], [n |-> "Q_branch", k |-> "n", v |-> "0.01583", u |-> "m^3/s"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_butterfly_valve_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "style", k |-> "i", v |-> "2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_diaphragm_valve_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "style", k |-> "i", v |-> "0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_foot_valve_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "style", k |-> "i", v |-> "0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_from_L_equiv", i |-> "0", args |-> <<[n |-> "L_D", k |-> "i", v |-> "240", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_from_f", i |-> "0", args |-> <<[n |-> "fd", k |-> "n", v |-> "0.018", u |-> "dimensionless"], [n |-> "L", k |-> "n", v |-> "100.0", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_gate_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.146", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "13.115", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_globe_stop_check_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "style", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_globe_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_lift_check_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_motionless_mixer", i |-> "0", args |-> <<[n |-> "K", k |-> "i", v |-> "150", u |-> "dimensionless"], [n |-> "L", k |-> "n", v |-> "3.81", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.762", u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_plug_valve_Crane", i |-> "0", args |-> <<[n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "50", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_run_converging_Crane", i |-> "0", args |-> <<[n |-> "D_run", k |-> "n", v |-> "0.1023", u |-> "m"], [n |-> "D_branch", k |-> "n", v |-> "0.1023", u |-> "m"], [n |-> "Q_run", k |-> "n", v |-> "0.018917", u |-> "m^3/s"], [n |-> "Q_branch", k |-> "n", v |-> "0.00633", u |-> "m^3/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_run_diverging_Crane", i |-> "0", args |-> <<[n |-> "D_run", k |-> "n", v |-> "0.146", u |-> "m"], [n |-> "D_branch", k |-> "n", v |-> "0.146", u |-> "m"], [n |-> "Q_run", k |-> "n", v |-> "0.02525", u |-> "m^3/s"], [n |-> "Q_branch", k |-> "n", v |-> "0.01583", u |-> "m^3/s"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_separator_Watkins", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.88", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "985.4", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.3", u |-> "kg/m^3"], [n |-> "horizontal", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "K_separator_demister_York", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "6722391.0", u |-> "Pa"], [n |-> "horizontal", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "K_swing_check_valve_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_tilting_disk_check_valve_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "5", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "K_to_Cv", i |-> "0", args |-> <<[n |-> "K", k |-> "i", v |-> "16", u |-> "dimensionless"], [n |-> "D", k |-> "n", v |-> "0.015", u |-> "m"]>>, ret |-> "number", units |-> <<"gallons/minute">>, jit |-> TRUE],
  [f |-> "K_to_Kv", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "15.1533746003999", u |-> "dimensionless"], [n |-> "D", k |-> "n", v |-> "0.015", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> TRUE],
  [f |-> "K_to_discharge_coefficient", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "K", k |-> "n", v |-> "5.2314291729754", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Kawahara", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.0001", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Khan_Richardson", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Kim_Mudawar", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Knudsen", i |-> "0", args |-> <<[n |-> "path", k |-> "n", v |-> "1e-10", u |-> "m"], [n |-> "L", k |-> "n", v |-> "0.001", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Kopte_Newell_Chato", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Kp_helical_ribbon_Rieger", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "1.9", u |-> "m"], [n |-> "h", k |-> "n", v |-> "1.9", u |-> "m"], [n |-> "nb", k |-> "i", v |-> "2", u |-> "dimensionless"], [n |-> "pitch", k |-> "n", v |-> "1.9", u |-> "m"], [n |-> "width", k |-> "n", v |-> "0.19", u |-> "m"], [n |-> "T", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Kuo_Nydegger", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.8", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Kv_to_Cv", i |-> "0", args |-> <<[n |-> "Kv", k |-> "i", v |-> "2", u |-> "m^3/hr"]>>, ret |-> "number", units |-> <<"gallons/minute">>, jit |-> TRUE],
  [f |-> "Kv_to_K", i |-> "0", args |-> <<[n |-> "Kv", k |-> "n", v |-> "2.312", u |-> "m^3/hr"], [n |-> "D", k |-> "n", v |-> "0.015", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "L_equiv_from_K", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "3.6", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "L_from_K", i |-> "0", args |-> <<[n |-> "K", k |-> "i", v |-> "6", u |-> "dimensionless"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.018", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "Lewis", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "2.26e-05", u |-> "m^2/s"], [n |-> "alpha", k |-> "n", v |-> "1.91e-05", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Lewis", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "2.26e-05", u |-> "m^2/s"], [n |-> "rho", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "k", k |-> "n", v |-> "0.2", u |-> "W/m/K"], [n |-> "Cp", k |-> "i", v |-> "2200", u |-> "J/kg/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Lin_Kwok", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Lockhart_Martinelli", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Lockhart_Martinelli_Xtt", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Lombardi_Pedrocchi", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.045", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Mach", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "33.0", u |-> "m/s"], [n |-> "c", k |-> "i", v |-> "330", u |-> "m/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Manadilli_1997", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Mandhane_Gregory_Aziz_regime", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.112", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.12", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.065", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "tuple", units |-> <<"dimensionless", "ft/s", "ft/s">>, jit |-> TRUE],
  [f |-> "Matsumoto_1974", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "1.0", u |-> "kg/s"], [n |-> "rhop", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Vterminal", k |-> "n", v |-> "5.24", u |-> "m/s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Matsumoto_1975", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "1.0", u |-> "kg/s"], [n |-> "rhop", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Vterminal", k |-> "n", v |-> "5.24", u |-> "m/s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Matsumoto_1977", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "1.0", u |-> "kg/s"], [n |-> "rhop", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Vterminal", k |-> "n", v |-> "5.24", u |-> "m/s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "McAdams", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "Mikhailov_Freire", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Mishima_Hibiki", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Montillet_Akkari_Comiti", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "L", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "vs", k |-> "n", v |-> "0.0013262912", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Moody", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Morrison", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Morsi_Alexander", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Morton", i |-> "0", args |-> <<[n |-> "rhol", k |-> "n", v |-> "1077.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "76.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00427", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.023", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Muller", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Muller_Steinhagen_Heck", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Nicklin_Wilkes_Davidson", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Nishino_Yamazaki", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Nusselt", i |-> "0", args |-> <<[n |-> "h", k |-> "n", v |-> "1000.0", u |-> "W/m^2/K"], [n |-> "L", k |-> "n", v |-> "1.2", u |-> "m"], [n |-> "k", k |-> "n", v |-> "300.0", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Nusselt", i |-> "1", args |-> <<[n |-> "h", k |-> "n", v |-> "10000.0", u |-> "W/m^2/K"], [n |-> "L", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "k", k |-> "n", v |-> "4000.0", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Ohnesorge", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.1", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Oliphant", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "P_critical_flow", i |-> "0", args |-> <<[n |-> "P", k |-> "i", v |-> "1400000", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.289", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "P_from_head", i |-> "0", args |-> <<[n |-> "head", k |-> "n", v |-> "5.0", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "800.0", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "P_isothermal_critical_flow", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "fd", k |-> "n", v |-> "0.00185", u |-> "dimensionless"], [n |-> "L", k |-> "n", v |-> "1000.0", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "P_stagnation", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "54050.0", u |-> "Pa"], [n |-> "T", k |-> "n", v |-> "255.7", u |-> "K"], [n |-> "Tst", k |-> "n", v |-> "286.8", u |-> "K"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Panhandle_A", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Panhandle_B", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Papaevangelo_2010", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Peclet_heat", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "Cp", k |-> "n", v |-> "4000.0", u |-> "J/kg/K"], [n |-> "k", k |-> "n", v |-> "0.6", u |-> "W/m/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Peclet_heat", i |-> "1", args |-> <<[n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "alpha", k |-> "n", v |-> "1e-07", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Peclet_mass", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"], [n |-> "D", k |-> "n", v |-> "1e-09", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Power_number", i |-> "0", args |-> <<[n |-> "P", k |-> "i", v |-> "180", u |-> "W"], [n |-> "L", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "N", k |-> "n", v |-> "2.5", u |-> "revolutions/second"], [n |-> "rho", k |-> "n", v |-> "800.0", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Prandtl", i |-> "0", args |-> <<[n |-> "Cp", k |-> "n", v |-> "1637.0", u |-> "J/kg/K"], [n |-> "k", k |-> "n", v |-> "0.01", u |-> "W/m/K"], [n |-> "mu", k |-> "n", v |-> "4.61e-06", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Prandtl", i |-> "1", args |-> <<[n |-> "Cp", k |-> "n", v |-> "1637.0", u |-> "J/kg/K"], [n |-> "k", k |-> "n", v |-> "0.01", u |-> "W/m/K"], [n |-> "nu", k |-> "n", v |-> "6.4e-07", u |-> "m^2/s"], [n |-> "rho", k |-> "n", v |-> "7.1", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Prandtl", i |-> "2", args |-> <<[n |-> "nu", k |-> "n", v |-> "6.3e-07", u |-> "m^2/s"], [n |-> "alpha", k |-> "n", v |-> "9e-07", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Prandtl_von_Karman_Nikuradse", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000000.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Q_weir_V_Shen", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.6", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_Kindsvater_Carter", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "b", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_SIA", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "b", k |-> "i", v |-> "1", u |-> "m"], [n |-> "b1", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_full_Ackers", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.9", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.6", u |-> "m"], [n |-> "b", k |-> "i", v |-> "5", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_full_Kindsvater_Carter", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "b", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_full_Rehbock", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "b", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "Q_weir_rectangular_full_SIA", i |-> "0", args |-> <<[n |-> "h1", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "h2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "b", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3/s">>, jit |-> TRUE],
  [f |-> "R2C", i |-> "0", args |-> <<[n |-> "Ra", k |-> "n", v |-> "459.67", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "R2F", i |-> "0", args |-> <<[n |-> "Ra", k |-> "n", v |-> "491.67", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "R2K", i |-> "0", args |-> <<[n |-> "Ra", k |-> "n", v |-> "491.67", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rao_Kumar_2007", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rayleigh", i |-> "0", args |-> <<[n |-> "Pr", k |-> "n", v |-> "1.2", u |-> "dimensionless"], [n |-> "Gr", k |-> "n", v |-> "4600000000.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Reynolds", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "2.5", u |-> "m/s"], [n |-> "D", k |-> "n", v |-> "0.25", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1.1613", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.9e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Reynolds", i |-> "1", args |-> <<[n |-> "V", k |-> "n", v |-> "2.5", u |-> "m/s"], [n |-> "D", k |-> "n", v |-> "0.25", u |-> "m"], [n |-> "nu", k |-> "n", v |-> "1.636e-05", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Reynolds_factor", i |-> "0", args |-> <<[n |-> "FL", k |-> "n", v |-> "0.98", u |-> "dimensionless"], [n |-> "C", k |-> "n", v |-> "0.015483", u |-> "m^3/hr"], [n |-> "d", k |-> "n", v |-> "15.0", u |-> "m"], [n |-> "Rev", k |-> "n", v |-> "1202.0", u |-> "dimensionless"], [n |-> "full_trim", k |-> "b", v |-> FALSE, u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Reynolds_valve", i |-> "0", args |-> <<[n |-> "nu", k |-> "n", v |-> "3.26e-07", u |-> "m^2/s"], [n |-> "Q", k |-> "i", v |-> "360", u |-> "m^3/s"], [n |-> "D1", k |-> "n", v |-> "150.0", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.46", u |-> "dimensionless"], [n |-> "C", k |-> "i", v |-> "165", u |-> "m^3/hr"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rizk", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "0.25", u |-> "kg/s"], [n |-> "dp", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.078", u |-> "m"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Robbins", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "12.2", u |-> "kg/s/m^2"], [n |-> "G", k |-> "n", v |-> "2.03", u |-> "kg/s/m^2"], [n |-> "rhol", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.1853", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "H", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "Fpd", k |-> "n", v |-> "24.0", u |-> "1/ft"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Romeo_2002", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rouhani_1", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rouhani_2", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Round_1980", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Rouse", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "SA_conical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "2", u |-> "m"], [n |-> "a", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_ellipsoidal_head", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "2", u |-> "m"], [n |-> "a", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_ellipsoidal_head", i |-> "1", args |-> <<[n |-> "D", k |-> "i", v |-> "2", u |-> "m"], [n |-> "a", k |-> "n", v |-> "1.5", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_from_h", i |-> "0", args |-> <<[n |-> "h", k |-> "i", v |-> "7", u |-> "m"], [n |-> "D", k |-> "n", v |-> "1.5", u |-> "m"], [n |-> "L", k |-> "n", v |-> "5.0", u |-> "m"], [n |-> "horizontal", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "sideA", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideB", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "sideB_a", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_guppy_head", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "2", u |-> "m"], [n |-> "a", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_cylindrical_body", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "200.0", u |-> "m"], [n |-> "D", k |-> "n", v |-> "96.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "22.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_horiz_conical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_horiz_ellipsoidal_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_horiz_guppy_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_horiz_spherical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_horiz_torispherical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "f", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.06", u |-> "dimensionless"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> FALSE],
  [f |-> "SA_partial_sphere", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "0.7", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_vertical_conical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_vertical_ellipsoidal_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "48.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "24.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_vertical_spherical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "72", u |-> "m"], [n |-> "a", k |-> "i", v |-> "24", u |-> "m"], [n |-> "h", k |-> "i", v |-> "12", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_partial_vertical_torispherical_head", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "72.0", u |-> "m"], [n |-> "f", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.06", u |-> "dimensionless"], [n |-> "h", k |-> "n", v |-> "2.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "SA_tank", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "2", u |-> "m"], [n |-> "L", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "tuple", units |-> <<"m^2", "m^2", "m^2", "m^2">>, jit |-> TRUE],
  [f |-> "SA_tank", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "L", k |-> "i", v |-> "0", u |-> "m"], [n |-> "sideA", k |-> "s", v |-> "ellipsoidal", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "i", v |-> "2", u |-> "m"], [n |-> "sideB", k |-> "s", v |-> "ellipsoidal", u |-> "dimensionless"], [n |-> "sideB_a", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "tuple", units |-> <<"m^2", "m^2", "m^2", "m^2">>, jit |-> TRUE],
  [f |-> "SA_tank", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "L", k |-> "i", v |-> "5", u |-> "m"], [n |-> "sideA", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "i", v |-> "2", u |-> "m"], [n |-> "sideB", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideB_a", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "tuple", units |-> <<"m^2", "m^2", "m^2", "m^2">>, jit |-> TRUE],
  [f |-> "SA_tank", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "L", k |-> "i", v |-> "5", u |-> "m"], [n |-> "sideA", k |-> "s", v |-> "spherical", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "sideB", k |-> "s", v |-> "spherical", u |-> "dimensionless"], [n |-> "sideB_a", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "tuple", units |-> <<"m^2", "m^2", "m^2", "m^2">>, jit |-> TRUE],
  [f |-> "SA_torispheroidal", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "2.54", u |-> "m"], [n |-> "f", k |-> "n", v |-> "1.039370079", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.062362205", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^2">>, jit |-> TRUE],
  [f |-> "Schade", i |-> "0", args |-> <<[n |-> "mp", k |-> "n", v |-> "1.0", u |-> "kg/s"], [n |-> "rhop", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Schmidt", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "2e-06", u |-> "m^2/s"], [n |-> "mu", k |-> "n", v |-> "4.61e-06", u |-> "Pa*s"], [n |-> "rho", k |-> "i", v |-> "800", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Schmidt", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "1e-09", u |-> "m^2/s"], [n |-> "nu", k |-> "n", v |-> "6e-07", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Serghides_1", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Serghides_2", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Shacham_1980", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Sherwood", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "1000.0", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "1.2", u |-> "m"], [n |-> "D", k |-> "n", v |-> "300.0", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Smith", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Song_Xu", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "30.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Sonnad_Goudar_2006", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Spitzglass_high", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Spitzglass_low", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.154051", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "6720.3199", u |-> "Pa"], [n |-> "P2", k |-> "i", v |-> "0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "54.864", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.6", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "288.7", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Stanton", i |-> "0", args |-> <<[n |-> "h", k |-> "i", v |-> "5000", u |-> "W/m^2/K"], [n |-> "V", k |-> "i", v |-> "5", u |-> "m/s"], [n |-> "rho", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "Cp", k |-> "n", v |-> "2000.0", u |-> "J/kg/K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Steiner", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Stichlmair_dry", i |-> "0", args |-> <<[n |-> "Vg", k |-> "n", v |-> "0.4", u |-> "m/s"], [n |-> "rhog", k |-> "n", v |-> "5.0", u |-> "kg/m^3"], [n |-> "mug", k |-> "n", v |-> "5e-05", u |-> "Pa*s"], [n |-> "voidage", k |-> "n", v |-> "0.68", u |-> "dimensionless"], [n |-> "specific_area", k |-> "n", v |-> "260.0", u |-> "m^2/m^3"], [n |-> "C1", k |-> "n", v |-> "32.0", u |-> "dimensionless"], [n |-> "C2", k |-> "n", v |-> "7.0", u |-> "dimensionless"], [n |-> "C3", k |-> "n", v |-> "1.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Stichlmair_flood", i |-> "0", args |-> <<[n |-> "Vl", k |-> "n", v |-> "0.005", u |-> "m/s"], [n |-> "rhog", k |-> "n", v |-> "5.0", u |-> "kg/m^3"], [n |-> "rhol", k |-> "n", v |-> "1200.0", u |-> "kg/m^3"], [n |-> "mug", k |-> "n", v |-> "5e-05", u |-> "Pa*s"], [n |-> "voidage", k |-> "n", v |-> "0.68", u |-> "dimensionless"], [n |-> "specific_area", k |-> "n", v |-> "260.0", u |-> "m^2/m^3"], [n |-> "C1", k |-> "n", v |-> "32.0", u |-> "dimensionless"], [n |-> "C2", k |-> "n", v |-> "7.0", u |-> "dimensionless"], [n |-> "C3", k |-> "n", v |-> "1.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Stichlmair_wet", i |-> "0", args |-> <<[n |-> "Vg", k |-> "n", v |-> "0.4", u |-> "m/s"], [n |-> "Vl", k |-> "n", v |-> "0.005", u |-> "m/s"], [n |-> "rhog", k |-> "n", v |-> "5.0", u |-> "kg/m^3"], [n |-> "rhol", k |-> "n", v |-> "1200.0", u |-> "kg/m^3"], [n |-> "mug", k |-> "n", v |-> "5e-05", u |-> "Pa*s"], [n |-> "voidage", k |-> "n", v |-> "0.68", u |-> "dimensionless"], [n |-> "specific_area", k |-> "n", v |-> "260.0", u |-> "m^2/m^3"], [n |-> "C1", k |-> "n", v |-> "32.0", u |-> "dimensionless"], [n |-> "C2", k |-> "n", v |-> "7.0", u |-> "dimensionless"], [n |-> "C3", k |-> "n", v |-> "1.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Stokes", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "0.1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Stokes_number", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "0.9", u |-> "m/s"], [n |-> "Dp", k |-> "n", v |-> "1e-05", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Strouhal", i |-> "0", args |-> <<[n |-> "f", k |-> "i", v |-> "8", u |-> "Hz"], [n |-> "L", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "V", k |-> "n", v |-> "4.0", u |-> "m/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Sun_Duffey_Peng", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.02", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "P", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "7000000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Suratman", i |-> "0", args |-> <<[n |-> "L", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.1", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Swamee_Jain_1976", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Swamee_Ojha", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "T_critical_flow", i |-> "0", args |-> <<[n |-> "T", k |-> "i", v |-> "473", u |-> "K"], [n |-> "k", k |-> "n", v |-> "1.289", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"K">>, jit |-> TRUE],
  [f |-> "T_stagnation", i |-> "0", args |-> <<[n |-> "T", k |-> "n", v |-> "286.8", u |-> "K"], [n |-> "P", k |-> "i", v |-> "54050", u |-> "Pa"], [n |-> "Pst", k |-> "i", v |-> "432400", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"K">>, jit |-> TRUE],
  [f |-> "T_stagnation_ideal", i |-> "0", args |-> <<[n |-> "T", k |-> "n", v |-> "255.7", u |-> "K"], [n |-> "V", k |-> "i", v |-> "250", u |-> "m/s"], [n |-> "Cp", k |-> "n", v |-> "1005.0", u |-> "J/kg/K"]>>, ret |-> "number", units |-> <<"K">>, jit |-> TRUE],
  [f |-> "Taitel_Dukler_regime", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.112", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.12", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "0", u |-> "degrees"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless", "dimensionless", "dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "Tallmadge", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Tandon_Varma_Gupta", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Terfous", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Theissing", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Thom", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Tran", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Tsal_1989", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Turner_Wallis", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "VDI_3732_noise_elevated_flare", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "3.0", u |-> "kg/s"]>>, ret |-> "number", units |-> <<"decibels">>, jit |-> TRUE],
  [f |-> "VDI_3732_noise_ground_flare", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "3.0", u |-> "kg/s"]>>, ret |-> "number", units |-> <<"decibels">>, jit |-> TRUE],
  [f |-> "VFD_efficiency", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "7457.0", u |-> "W"], [n |-> "load", k |-> "n", v |-> "0.5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "V_Chezy", i |-> "0", args |-> <<[n |-> "Rh", k |-> "i", v |-> "5", u |-> "m"], [n |-> "S", k |-> "n", v |-> "0.001", u |-> "dimensionless"], [n |-> "C", k |-> "n", v |-> "26.153", u |-> "m^0.5/s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "V_Manning", i |-> "0", args |-> <<[n |-> "Rh", k |-> "n", v |-> "0.2859", u |-> "m"], [n |-> "S", k |-> "n", v |-> "0.005236", u |-> "dimensionless"], [n |-> "n", k |-> "n", v |-> "0.03", u |-> "s/m^(1/3)"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "V_cylinder", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "L", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_from_h", i |-> "0", args |-> <<[n |-> "h", k |-> "i", v |-> "7", u |-> "m"], [n |-> "D", k |-> "n", v |-> "1.5", u |-> "m"], [n |-> "L", k |-> "n", v |-> "5.0", u |-> "m"], [n |-> "horizontal", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "sideA", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideB", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "sideB_a", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_hollow_cylinder", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.005", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "L", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_horiz_conical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "108.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "156.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "42.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "36", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_horiz_ellipsoidal", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "108", u |-> "m"], [n |-> "L", k |-> "i", v |-> "156", u |-> "m"], [n |-> "a", k |-> "i", v |-> "42", u |-> "m"], [n |-> "h", k |-> "i", v |-> "36", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_horiz_guppy", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "108.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "156.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "42.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "36", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_horiz_spherical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "108.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "156.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "42.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "36", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_horiz_torispherical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "108.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "156.0", u |-> "m"], [n |-> "f", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.06", u |-> "dimensionless"], [n |-> "h", k |-> "i", v |-> "36", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_partial_sphere", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "h", k |-> "n", v |-> "0.7", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_tank", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "1.5", u |-> "m"], [n |-> "L", k |-> "n", v |-> "5.0", u |-> "m"], [n |-> "horizontal", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "sideA", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideB", k |-> "s", v |-> "conical", u |-> "dimensionless"], [n |-> "sideA_a", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "sideB_a", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "tuple", units |-> <<"m^3", "m^3", "m^3", "m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_conical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "132.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "33.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "24", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_conical_concave", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "113.0", u |-> "m"], [n |-> "a", k |-> "i", v |-> "-33", u |-> "m"], [n |-> "h", k |-> "i", v |-> "15", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_ellipsoidal", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "132.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "33.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "24", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_ellipsoidal_concave", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "113.0", u |-> "m"], [n |-> "a", k |-> "i", v |-> "-33", u |-> "m"], [n |-> "h", k |-> "i", v |-> "15", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_spherical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "132.0", u |-> "m"], [n |-> "a", k |-> "n", v |-> "33.0", u |-> "m"], [n |-> "h", k |-> "i", v |-> "24", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_spherical_concave", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "113.0", u |-> "m"], [n |-> "a", k |-> "i", v |-> "-33", u |-> "m"], [n |-> "h", k |-> "i", v |-> "15", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_torispherical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "132.0", u |-> "m"], [n |-> "f", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.06", u |-> "dimensionless"], [n |-> "h", k |-> "i", v |-> "24", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "V_vertical_torispherical_concave", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "113.0", u |-> "m"], [n |-> "f", k |-> "n", v |-> "0.71", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.081", u |-> "dimensionless"], [n |-> "h", k |-> "i", v |-> "15", u |-> "m"]>>, ret |-> "number", units |-> <<"m^3">>, jit |-> TRUE],
  [f |-> "Wang_Chiang_Lu", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Weber", i |-> "0", args |-> <<[n |-> "V", k |-> "n", v |-> "0.18", u |-> "m/s"], [n |-> "L", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "900.0", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.01", u |-> "N/m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Weber_saltation", i |-> "0", args |-> <<[n |-> "mp", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "rhop", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Vterminal", k |-> "i", v |-> "4", u |-> "m/s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "Weymouth", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.34", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "9000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "2000000.0", u |-> "Pa"], [n |-> "L", k |-> "n", v |-> "160000.0", u |-> "m"], [n |-> "SG", k |-> "n", v |-> "0.693", u |-> "dimensionless"], [n |-> "Tavg", k |-> "n", v |-> "277.15", u |-> "K"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Woldesemayat_Ghajar", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "sigma", k |-> "n", v |-> "0.2", u |-> "N/m"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"], [n |-> "P", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Wood_1966", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Xu_Fang", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Xu_Fang_voidage", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Yashar", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Yen", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Yu_France", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Zhang_Hibiki_Mishima", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.0005", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Zhang_Webb", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "P", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "Pc", k |-> "i", v |-> "4055000", u |-> "Pa"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "Zigrang_Sylvester_1", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Zigrang_Sylvester_2", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "Zivi", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "a_torispherical", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "96.0", u |-> "m"], [n |-> "f", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "k", k |-> "n", v |-> "0.2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "agitator_time_homogeneous", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.9144", u |-> "m"], [n |-> "N", k |-> "n", v |-> "0.9333333333333333", u |-> "revolutions/s"], [n |-> "P", k |-> "n", v |-> "957.0", u |-> "W"], [n |-> "T", k |-> "n", v |-> "1.83", u |-> "m"], [n |-> "H", k |-> "n", v |-> "1.83", u |-> "m"], [n |-> "mu", k |-> "n", v |-> "0.018", u |-> "Pa*s"], [n |-> "rho", k |-> "i", v |-> "1020", u |-> "kg/m^3"], [n |-> "homogeneity", k |-> "n", v |-> "0.995", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"s">>, jit |-> TRUE],
  [f |-> "agitator_time_homogeneous", i |-> "1", args |-> <<[n |-> "D", k |-> "i", v |-> "1", u |-> "m"], [n |-> "N", k |-> "n", v |-> "2.0833333333333335", u |-> "revolutions/s"], [n |-> "P", k |-> "n", v |-> "298.0", u |-> "W"], [n |-> "T", k |-> "i", v |-> "3", u |-> "m"], [n |-> "H", k |-> "n", v |-> "2.5", u |-> "m"], [n |-> "mu", k |-> "n", v |-> "0.5", u |-> "Pa*s"], [n |-> "rho", k |-> "i", v |-> "980", u |-> "kg/m^3"], [n |-> "homogeneity", k |-> "n", v |-> "0.95", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"s">>, jit |-> TRUE],
  [f |-> "aspect_ratio", i |-> "0", args |-> <<[n |-> "Dmin", k |-> "n", v |-> "0.2", u |-> "m"], [n |-> "Dmax", k |-> "i", v |-> "2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_miter", i |-> "0", args |-> <<[n |-> "angle", k |-> "i", v |-> "150", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_miter", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.6", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "roughness", k |-> "n", v |-> "1e-05", u |-> "m"], [n |-> "L_unimpeded", k |-> "i", v |-> "20", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_miter_Miller", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.6", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "2000000.0", u |-> "dimensionless"], [n |-> "roughness", k |-> "n", v |-> "2e-05", u |-> "m"], [n |-> "L_unimpeded", k |-> "n", v |-> "18.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "2", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Crane standard", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "3", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Swamee", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "4", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded", i |-> "5", args |-> <<[n |-> "Di", k |-> "n", v |-> "4.02", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "20.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Ito", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded_Crane", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.402", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "bend_rounded_Miller", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.6", u |-> "m"], [n |-> "bend_diameters", k |-> "i", v |-> "2", u |-> "dimensionless"], [n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "2000000.0", u |-> "dimensionless"], [n |-> "roughness", k |-> "n", v |-> "2e-05", u |-> "m"], [n |-> "L_unimpeded", k |-> "n", v |-> "18.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "c_ideal_gas", i |-> "0", args |-> <<[n |-> "T", k |-> "i", v |-> "303", u |-> "K"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"], [n |-> "MW", k |-> "n", v |-> "28.96", u |-> "g/mol"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "cavitation_index", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "800000.0", u |-> "Pa"], [n |-> "Psat", k |-> "n", v |-> "200000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "cdf_Gates_Gaudin_Schuhman", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0002", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "m", k |-> "n", v |-> "2.3", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "cdf_Rosin_Rammler", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "k", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "m", k |-> "i", v |-> "2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "cdf_lognormal", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "1e-05", u |-> "m"], [n |-> "s", k |-> "n", v |-> "1.1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "change_K_basis", i |-> "0", args |-> <<[n |-> "K1", k |-> "n", v |-> "32.68875692997804", u |-> "dimensionless"], [n |-> "D1", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "circle_segment_h_from_A", i |-> "0", args |-> <<[n |-> "A", k |-> "n", v |-> "1251.2018147383194", u |-> "m^2"], [n |-> "D", k |-> "n", v |-> "96.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "circularity", i |-> "0", args |-> <<[n |-> "A", k |-> "i", v |-> "4", u |-> "m^2"], [n |-> "P", k |-> "i", v |-> "8", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "cone_meter_expansibility_Stewart", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.9", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "850000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_beveled", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.06999999999999999", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "120", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "1", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Blevins", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "2", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "3", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Swamee", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "4", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "5", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical", i |-> "6", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Hooper", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_conical_Crane", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.0779", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.0525", u |-> "m"], [n |-> "l", k |-> "i", v |-> "0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_round", i |-> "0", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.04", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_round", i |-> "1", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_round", i |-> "2", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.04", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_round_Miller", i |-> "0", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.04", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_sharp", i |-> "0", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_sharp", i |-> "1", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Hooper", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_sharp", i |-> "2", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "1000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Hooper", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_sharp", i |-> "3", args |-> <<[n |-> "Di1", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.4", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "contraction_sharp", i |-> "4", args |-> <<[n |-> "Di1", k |-> "n", v |-> "3.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "2.0", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "control_valve_choke_P_g", i |-> "0", args |-> <<[n |-> "xT", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "gamma", k |-> "n", v |-> "1.3", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "control_valve_choke_P_g", i |-> "1", args |-> <<[n |-> "xT", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "gamma", k |-> "n", v |-> "1.3", u |-> "dimensionless"], [n |-> "P2", k |-> "n", v |-> "7142.857142857143", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "control_valve_choke_P_l", i |-> "0", args |-> <<[n |-> "Psat", k |-> "n", v |-> "69682.89291024722", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "22048320.0", u |-> "Pa"], [n |-> "FL", k |-> "n", v |-> "0.6", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "680000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> FALSE],
  [f |-> "control_valve_choke_P_l", i |-> "1", args |-> <<[n |-> "Psat", k |-> "n", v |-> "69682.89291024722", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "22048320.0", u |-> "Pa"], [n |-> "FL", k |-> "n", v |-> "0.6", u |-> "dimensionless"], [n |-> "P2", k |-> "n", v |-> "458887.5306077305", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> FALSE],
  [f |-> "control_valve_noise_g_2011", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "2.22", u |-> "kg/s"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "720000.0", u |-> "Pa"], [n |-> "T1", k |-> "i", v |-> "450", u |-> "K"], [n |-> "rho", k |-> "n", v |-> "5.3", u |-> "kg/m^3"], [n |-> "gamma", k |-> "n", v |-> "1.22", u |-> "dimensionless"], [n |-> "MW", k |-> "n", v |-> "19.8", u |-> "g/mol"], [n |-> "Kv", k |-> "n", v |-> "77.85", u |-> "m^3/hr"], [n |-> "d", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di", k |-> "n", v |-> "0.2031", u |-> "m"], [n |-> "FL", k |-> "z", v |-> "None", u |-> "dimensionless"], [n |-> "FLP", k |-> "n", v |-> "0.792", u |-> "dimensionless"], [n |-> "FP", k |-> "n", v |-> "0.98", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.296", u |-> "dimensionless"], [n |-> "t_pipe", k |-> "n", v |-> "0.008", u |-> "m"], [n |-> "rho_pipe", k |-> "n", v |-> "8000.0", u |-> "kg/m^3"], [n |-> "c_pipe", k |-> "n", v |-> "5000.0", u |-> "m/s"], [n |-> "rho_air", k |-> "n", v |-> "1.293", u |-> "kg/m^3"], [n |-> "c_air", k |-> "n", v |-> "343.0", u |-> "m/s"], [n |-> "An", k |-> "n", v |-> "-3.8", u |-> "dimensionless"], [n |-> "Stp", k |-> "n", v |-> "0.2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dB">>, jit |-> TRUE],
  [f |-> "control_valve_noise_l_2015", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "40", u |-> "kg/s"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "650000.0", u |-> "Pa"], [n |-> "Psat", k |-> "n", v |-> "2320.0", u |-> "Pa"], [n |-> "rho", k |-> "i", v |-> "997", u |-> "kg/m^3"], [n |-> "c", k |-> "i", v |-> "1400", u |-> "m/s"], [n |-> "Kv", k |-> "n", v |-> "77.848", u |-> "m^3/hr"], [n |-> "d", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di", k |-> "n", v |-> "0.1071", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.92", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.42", u |-> "dimensionless"], [n |-> "t_pipe", k |-> "n", v |-> "0.0036", u |-> "m"], [n |-> "rho_pipe", k |-> "n", v |-> "7800.0", u |-> "kg/m^3"], [n |-> "c_pipe", k |-> "n", v |-> "5000.0", u |-> "m/s"], [n |-> "rho_air", k |-> "n", v |-> "1.293", u |-> "kg/m^3"], [n |-> "c_air", k |-> "n", v |-> "343.0", u |-> "m/s"], [n |-> "An", k |-> "n", v |-> "-4.6", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dB">>, jit |-> TRUE],
  [f |-> "convert_flow_coefficient", i |-> "0", args |-> <<[n |-> "flow_coefficient", k |-> "i", v |-> "10", u |-> "dimensionless"], [n |-> "old_scale", k |-> "s", v |-> "Kv", u |-> "dimensionless"], [n |-> "new_scale", k |-> "s", v |-> "Av", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "current_ideal", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "120", u |-> "V"], [n |-> "P", k |-> "n", v |-> "10000.0", u |-> "W"], [n |-> "PF", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "phase", k |-> "i", v |-> "1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"A">>, jit |-> TRUE],
  [f |-> "dP_Reader_Harris_Gallagher_wet_venturi_tube", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.06", u |-> "m"], [n |-> "H", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "6000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "5950000.0", u |-> "Pa"], [n |-> "ml", k |-> "n", v |-> "2.65963", u |-> "kg/s"], [n |-> "mg", k |-> "n", v |-> "5.31926", u |-> "kg/s"], [n |-> "rhog", k |-> "n", v |-> "50.0", u |-> "kg/m^3"], [n |-> "rhol", k |-> "n", v |-> "800.0", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_cone_meter", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.7", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "950000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_demister_dry_Setekleiv_Svendsen", i |-> "0", args |-> <<[n |-> "S", k |-> "i", v |-> "250", u |-> "m^2/m^3"], [n |-> "voidage", k |-> "n", v |-> "0.983", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "1.2", u |-> "m/s"], [n |-> "rho", k |-> "i", v |-> "10", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "3e-05", u |-> "Pa*s"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_demister_dry_Setekleiv_Svendsen_lit", i |-> "0", args |-> <<[n |-> "S", k |-> "i", v |-> "250", u |-> "m^2/m^3"], [n |-> "voidage", k |-> "n", v |-> "0.983", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "1.2", u |-> "m/s"], [n |-> "rho", k |-> "i", v |-> "10", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "3e-05", u |-> "Pa*s"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_demister_wet_ElDessouky", i |-> "0", args |-> <<[n |-> "vs", k |-> "i", v |-> "6", u |-> "m/s"], [n |-> "voidage", k |-> "n", v |-> "0.978", u |-> "dimensionless"], [n |-> "d_wire", k |-> "n", v |-> "0.00032", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_from_K", i |-> "0", args |-> <<[n |-> "K", k |-> "i", v |-> "10", u |-> "dimensionless"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "V", k |-> "i", v |-> "3", u |-> "m/s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_orifice", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "C", k |-> "n", v |-> "0.61512", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "1", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Dt", k |-> "n", v |-> "0.01", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "2", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.492", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.1", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Dt", k |-> "n", v |-> "0.015", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Guo, Sun, Zhang, Ding & Liu", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "3", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Tallmadge", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "4", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Montillet, Akkari & Comiti", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "5", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Kuo & Nydegger", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "6", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "KTA", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "7", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Jones & Krier", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "8", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "9", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Hicks", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "10", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Harrison, Brunner & Hecker", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "11", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Guo, Sun, Zhang, Ding & Liu", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "12", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Fahien & Schriver", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "13", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Ergun", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "14", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Carman", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed", i |-> "15", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Brauer", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_packed_bed_methods", i |-> "0", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "dP_packed_bed_methods", i |-> "1", args |-> <<[n |-> "dp", k |-> "n", v |-> "0.0008", u |-> "m"], [n |-> "voidage", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "vs", k |-> "n", v |-> "0.001", u |-> "m/s"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dt", k |-> "n", v |-> "0.01", u |-> "m"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "dP_venturi_tube", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "dP_wedge_meter", i |-> "0", args |-> <<[n |-> "D", k |-> "i", v |-> "1", u |-> "m"], [n |-> "H", k |-> "n", v |-> "0.7", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "950000.0", u |-> "Pa"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "density_two_phase", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"kg/m^3">>, jit |-> TRUE],
  [f |-> "diameter_ratio_cone_meter", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2575", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.184", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diameter_ratio_wedge_meter", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2027", u |-> "m"], [n |-> "H", k |-> "n", v |-> "0.0608", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead v cone", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "flange", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "4", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "corner", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "5", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "wedge meter", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "6", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "venturi nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "7", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "rough welded convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "8", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "machined convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "9", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "long radius nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "10", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "cone meter", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "11", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "as cast convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "12", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Miller quarter circle orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "13", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Miller conical orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "14", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 quarter-circle orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "15", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 eccentric orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "16", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 conical orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "17", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "ISA 1932 nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "18", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead wedge", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "19", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead venturi smooth", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_C_epsilon", i |-> "20", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "m", k |-> "n", v |-> "7.702338035732168", u |-> "kg/s"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead venturi sharp", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_beta", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2575", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.184", u |-> "m"], [n |-> "meter_type", k |-> "s", v |-> "cone meter", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_beta", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2575", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.184", u |-> "m"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead orifice", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_beta", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.2575", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.184", u |-> "m"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead wedge", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_dP", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "meter_type", k |-> "s", v |-> "as cast convergent venturi tube", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_dP", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead v cone", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_dP", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead wedge", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "m", k |-> "n", v |-> "7.702338", u |-> "kg/s"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "flange", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "4", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 5167 orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "corner", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "5", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "wedge meter", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "6", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "venturi nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "7", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "rough welded convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "8", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "machined convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "9", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "long radius nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "10", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "cone meter", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "11", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "as cast convergent venturi tube", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "12", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Miller quarter circle orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "13", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Miller conical orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "14", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 quarter-circle orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "15", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 eccentric orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "16", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISO 15377 conical orifice", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "17", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "ISA 1932 nozzle", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "18", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead wedge", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "19", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead venturi smooth", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "20", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead venturi sharp", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "differential_pressure_meter_solver", i |-> "21", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "183000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "999.1", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.0011", u |-> "Pa*s"], [n |-> "k", k |-> "n", v |-> "1.33", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead v cone", u |-> "dimensionless"], [n |-> "taps", k |-> "s", v |-> "D", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "1", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "2", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Hooper", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "3", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Swamee", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "4", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical", i |-> "5", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.3333333333333333", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "50.0", u |-> "degrees"], [n |-> "Re", k |-> "n", v |-> "1000000.0", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical_staged", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "DEs", k |-> "l", v |-> <<"2", "3", "4">>, u |-> "m"], [n |-> "ls", k |-> "l", v |-> <<"1.1", "1.2", "1.3", "1.4">>, u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical_staged", i |-> "1", args |-> <<[n |-> "Di1", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "DEs", k |-> "l", v |-> <<"2", "3", "4">>, u |-> "m"], [n |-> "ls", k |-> "l", v |-> <<"1.1", "1.2", "1.3", "1.4">>, u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical_staged", i |-> "2", args |-> <<[n |-> "Di1", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "DEs", k |-> "l", v |-> <<"2", "3", "4">>, u |-> "m"], [n |-> "ls", k |-> "l", v |-> <<"1.1", "1.2", "1.3", "1.4">>, u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical_staged", i |-> "3", args |-> <<[n |-> "Di1", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "DEs", k |-> "l", v |-> <<"2", "3", "4">>, u |-> "m"], [n |-> "ls", k |-> "l", v |-> <<"1.1", "1.2", "1.3", "1.4">>, u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Swamee", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_conical_staged", i |-> "4", args |-> <<[n |-> "Di1", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "DEs", k |-> "l", v |-> <<"2", "3", "4">>, u |-> "m"], [n |-> "ls", k |-> "l", v |-> <<"1.1", "1.2", "1.3", "1.4">>, u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.01", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_curved", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "l", k |-> "n", v |-> "2.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_pipe_reducer", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Di2", k |-> "n", v |-> "0.75", u |-> "m"], [n |-> "l", k |-> "n", v |-> "1.5", u |-> "m"], [n |-> "fd1", k |-> "n", v |-> "0.07", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_sharp", i |-> "0", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Di2", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "diffuser_sharp", i |-> "1", args |-> <<[n |-> "Di1", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Di2", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "fd", k |-> "n", v |-> "1e-07", u |-> "dimensionless"], [n |-> "method", k |-> "s", v |-> "Hooper", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "discharge_coefficient_to_K", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.07366", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "C", k |-> "n", v |-> "0.61512", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "1", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Almedeij", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "2", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Barati_high", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "3", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Yen", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "4", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Terfous", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "5", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Swamee_Ojha", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "6", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Stokes", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "7", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Song_Xu", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "8", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Rouse", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "9", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Morsi_Alexander", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "10", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Morrison", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "11", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Mikhailov_Freire", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "12", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Khan_Richardson", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "13", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Haider_Levenspiel", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "14", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Graf", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "15", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Flemmer_Banks", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "16", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Engelund_Hansen", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "17", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Clift_Gauvin", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "18", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Clift", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "19", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Cheng", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere", i |-> "20", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Ceylan", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "drag_sphere_methods", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "200", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "drag_sphere_methods", i |-> "1", args |-> <<[n |-> "Re", k |-> "i", v |-> "200000", u |-> "dimensionless"], [n |-> "check_ranges", k |-> "b", v |-> FALSE, u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "drag_sphere_methods", i |-> "2", args |-> <<[n |-> "Re", k |-> "i", v |-> "200000", u |-> "dimensionless"], [n |-> "check_ranges", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "entrance_angled", i |-> "0", args |-> <<[n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_beveled", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_beveled", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_beveled_orifice", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.07", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.003", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "2", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "l", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "3", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "4", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Harris", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance", i |-> "5", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "t", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_distance_45_Miller", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "Di0", k |-> "n", v |-> "0.14", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Crane", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "2", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Harris", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "3", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Swamee", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "4", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_rounded", i |-> "5", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rc", k |-> "n", v |-> "0.0235", u |-> "m"], [n |-> "method", k |-> "s", v |-> "Idelchik", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_sharp", i |-> "0", args |-> <<>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_sharp", i |-> "1", args |-> <<[n |-> "method", k |-> "s", v |-> "Blevins", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "entrance_sharp", i |-> "2", args |-> <<[n |-> "method", k |-> "s", v |-> "Miller", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "erosional_velocity", i |-> "0", args |-> <<[n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "C", k |-> "i", v |-> "100", u |-> "lb^0.5/(ft^0.5*s)"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "exit_normal", i |-> "0", args |-> <<>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "f_from_K", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "0.6", u |-> "dimensionless"], [n |-> "L", k |-> "n", v |-> "100.0", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.3", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "flow_coefficient", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "C", k |-> "n", v |-> "0.6", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "flow_meter_discharge", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "1.1646", u |-> "kg/m^3"], [n |-> "C", k |-> "n", v |-> "0.5988", u |-> "dimensionless"], [n |-> "expansibility", k |-> "n", v |-> "0.9975", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "flow_meter_discharge", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "1.1646", u |-> "kg/m^3"], [n |-> "C", k |-> "n", v |-> "0.5988", u |-> "dimensionless"], [n |-> "expansibility", k |-> "n", v |-> "0.9975", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "cone meter", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "flow_meter_discharge", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "rho", k |-> "n", v |-> "1.1646", u |-> "kg/m^3"], [n |-> "C", k |-> "n", v |-> "0.5988", u |-> "dimensionless"], [n |-> "expansibility", k |-> "n", v |-> "0.9975", u |-> "dimensionless"], [n |-> "meter_type", k |-> "s", v |-> "Hollingshead wedge", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "1", args |-> <<[n |-> "Re", k |-> "n", v |-> "290000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "1e-05", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Serghides_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "2", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Alshul_1952", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "3", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Zigrang_Sylvester_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "4", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Zigrang_Sylvester_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "5", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Wood_1966", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "6", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Swamee_Jain_1976", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "7", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Sonnad_Goudar_2006", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "8", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Shacham_1980", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "9", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Serghides_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "10", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Serghides_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "11", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Round_1980", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "12", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Romeo_2002", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "13", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Rao_Kumar_2007", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "14", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Papaevangelo_2010", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "15", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Moody", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "16", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Manadilli_1997", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "17", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Jain_1976", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "18", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Haaland", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "19", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Fang_2011", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "20", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Eck_1973", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "21", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Colebrook", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "22", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Churchill_1977", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "23", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Churchill_1973", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "24", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Chen_1979", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "25", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Buzzelli_2008", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "26", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Brkic_2011_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "27", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Brkic_2011_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "28", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Barr_1981", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor", i |-> "29", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Avci_Karagoz_2009", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "1", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Czop", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "2", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Guo", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "3", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "White", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "4", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Srinivasan turbulent", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "5", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Schmidt laminar", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "6", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Prasad", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "7", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Mori Nakayama turbulent", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "8", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Mori Nakayama laminar", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "9", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Mandal Nigam", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved", i |-> "10", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Ju", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_factor_curved_methods", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "friction_factor_methods", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "100000.0", u |-> "dimensionless"], [n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "friction_laminar", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "128", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_plate_Kumar", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "2000", u |-> "dimensionless"], [n |-> "chevron_angle", k |-> "i", v |-> "30", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_plate_Martin_1999", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "20000", u |-> "dimensionless"], [n |-> "chevron_angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_plate_Martin_VDI", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "20000", u |-> "dimensionless"], [n |-> "chevron_angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "friction_plate_Muley_Manglik", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "2000", u |-> "dimensionless"], [n |-> "chevron_angle", k |-> "i", v |-> "45", u |-> "degrees"], [n |-> "plate_enlargement_factor", k |-> "n", v |-> "1.2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "ft_Crane", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "Method", k |-> "s", v |-> "Duckler", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "1", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "2", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "Method", k |-> "s", v |-> "Beattie Whalley", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "3", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "Method", k |-> "s", v |-> "Lin Kwok", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "4", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "Method", k |-> "s", v |-> "Fourar Bories", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity", i |-> "5", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "mul", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "rhol", k |-> "i", v |-> "850", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "Method", k |-> "s", v |-> "Cicchitti", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa*s">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity_methods", i |-> "0", args |-> <<>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "gas_liquid_viscosity_methods", i |-> "1", args |-> <<[n |-> "rhol", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "rhog", k |-> "i", v |-> "2", u |-> "kg/m^3"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "gauge_from_t", i |-> "0", args |-> <<[n |-> "t", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "SI", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "schedule", k |-> "s", v |-> "BWG", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "gravity", i |-> "0", args |-> <<[n |-> "latitude", k |-> "i", v |-> "55", u |-> "degrees"], [n |-> "H", k |-> "n", v |-> "10000.0", u |-> "m"]>>, ret |-> "number", units |-> <<"m/s^2">>, jit |-> TRUE],
  [f |-> "head_from_K", i |-> "0", args |-> <<[n |-> "K", k |-> "i", v |-> "10", u |-> "dimensionless"], [n |-> "V", k |-> "n", v |-> "1.5", u |-> "m/s"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "head_from_P", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "98066.5", u |-> "Pa"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "1", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Ito", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "2", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Kubair Kuloor", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "3", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Srinivasan", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "4", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Seth Stahel", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_Re_crit", i |-> "5", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Kutateladze Borishanskii", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_laminar_fd_Mori_Nakayama", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "250", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_laminar_fd_Schmidt", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "250", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_laminar_fd_White", i |-> "0", args |-> <<[n |-> "Re", k |-> "i", v |-> "250", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Ito", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Kubair_Kuloor", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Kutateladze_Borishanskii", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Schmidt", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Seth_Stahel", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_transition_Re_Srinivasan", i |-> "0", args |-> <<[n |-> "Di", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "7.0", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Czop", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Guo", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "200000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Ju", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Mandal_Nigam", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Mori_Nakayama", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Prasad", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.2", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Schmidt", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helical_turbulent_fd_Srinivasan", i |-> "0", args |-> <<[n |-> "Re", k |-> "n", v |-> "10000.0", u |-> "dimensionless"], [n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dc", k |-> "n", v |-> "0.02", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "helix", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "rs", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "pitch", k |-> "n", v |-> "0.03", u |-> "m"], [n |-> "N", k |-> "i", v |-> "10", u |-> "dimensionless"], [n |-> "fd", k |-> "n", v |-> "0.0185", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "homogeneous", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "integrate_drag_sphere", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Almedeij", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Barati_high", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Yen", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "4", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Terfous", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "5", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Swamee_Ojha", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "6", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Stokes", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "7", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Song_Xu", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "8", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Rouse", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "9", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Morsi_Alexander", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "10", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Morrison", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "11", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Mikhailov_Freire", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "12", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Khan_Richardson", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "13", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Haider_Levenspiel", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "14", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Graf", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "15", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Flemmer_Banks", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "16", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Engelund_Hansen", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "17", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Clift_Gauvin", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "18", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Clift", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "19", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Cheng", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "integrate_drag_sphere", i |-> "20", args |-> <<[n |-> "D", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "t", k |-> "n", v |-> "0.5", u |-> "s"], [n |-> "V", k |-> "i", v |-> "30", u |-> "m/s"], [n |-> "distance", k |-> "b", v |-> TRUE, u |-> "dimensionless"], [n |-> "Method", k |-> "s", v |-> "Ceylan", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"m/s", "m">>, jit |-> FALSE],
  [f |-> "is_choked_turbulent_g", i |-> "0", args |-> <<[n |-> "x", k |-> "n", v |-> "0.544", u |-> "dimensionless"], [n |-> "Fgamma", k |-> "n", v |-> "0.929", u |-> "dimensionless"], [n |-> "xT", k |-> "n", v |-> "0.6", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "is_choked_turbulent_g", i |-> "1", args |-> <<[n |-> "x", k |-> "n", v |-> "0.544", u |-> "dimensionless"], [n |-> "Fgamma", k |-> "n", v |-> "0.929", u |-> "dimensionless"], [n |-> "xTP", k |-> "n", v |-> "0.625", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "is_choked_turbulent_l", i |-> "0", args |-> <<[n |-> "dP", k |-> "n", v |-> "460.0", u |-> "Pa"], [n |-> "P1", k |-> "n", v |-> "680.0", u |-> "Pa"], [n |-> "Psat", k |-> "n", v |-> "70.1", u |-> "Pa"], [n |-> "FF", k |-> "n", v |-> "0.94", u |-> "dimensionless"], [n |-> "FL", k |-> "n", v |-> "0.9", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "is_choked_turbulent_l", i |-> "1", args |-> <<[n |-> "dP", k |-> "n", v |-> "460.0", u |-> "Pa"], [n |-> "P1", k |-> "n", v |-> "680.0", u |-> "Pa"], [n |-> "Psat", k |-> "n", v |-> "70.1", u |-> "Pa"], [n |-> "FF", k |-> "n", v |-> "0.94", u |-> "dimensionless"], [n |-> "FL", k |-> "n", v |-> "0.6", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "is_critical_flow", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "670000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "532000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.11", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "is_critical_flow", i |-> "1", args |-> <<[n |-> "P1", k |-> "n", v |-> "670000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "101000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.11", u |-> "dimensionless"]>>, ret |-> "bool", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "isentropic_T_rise_compression", i |-> "0", args |-> <<[n |-> "T1", k |-> "n", v |-> "286.8", u |-> "K"], [n |-> "P1", k |-> "i", v |-> "54050", u |-> "Pa"], [n |-> "P2", k |-> "i", v |-> "432400", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"K">>, jit |-> TRUE],
  [f |-> "isentropic_efficiency", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"], [n |-> "eta_p", k |-> "n", v |-> "0.78", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "isentropic_work_compression", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "T1", k |-> "i", v |-> "300", u |-> "K"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"], [n |-> "eta", k |-> "n", v |-> "0.78", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "isothermal_gas", i |-> "0", args |-> <<[n |-> "rho", k |-> "n", v |-> "11.3", u |-> "kg/m^3"], [n |-> "fd", k |-> "n", v |-> "0.00185", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "900000.0", u |-> "Pa"], [n |-> "L", k |-> "i", v |-> "1000", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.5", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "isothermal_work_compression", i |-> "0", args |-> <<[n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "1000000.0", u |-> "Pa"], [n |-> "T", k |-> "i", v |-> "300", u |-> "K"]>>, ret |-> "number", units |-> <<"J/mol">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "1", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Armand", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "2", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Baroczy", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "3", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zivi", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "4", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Yashar", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "5", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Xu Fang voidage", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "6", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Turner Wallis", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "7", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Thom", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "8", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Tandon Varma Gupta", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "9", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Steiner", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "10", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Smith", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "11", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Rouhani 2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "12", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Rouhani 1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "13", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Nishino Yamazaki", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "14", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Nicklin Wilkes Davidson", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "15", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Kopte_Newell_Chato", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "16", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Huq_Loth", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "17", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Harms", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "18", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Guzhov", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "19", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Gregory_Scott", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "20", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Graham", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "21", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Fauske", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "22", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Domanski Didion", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "23", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Dix", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "24", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Chisholm_voidage", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage", i |-> "25", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Chisholm Armand", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "liquid_gas_voidage_methods", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "liquid_jet_pump", i |-> "0", args |-> <<[n |-> "rhop", k |-> "n", v |-> "998.0", u |-> "kg/m^3"], [n |-> "rhos", k |-> "n", v |-> "1098.0", u |-> "kg/m^3"], [n |-> "Km", k |-> "n", v |-> "0.186", u |-> "dimensionless"], [n |-> "Kd", k |-> "n", v |-> "0.12", u |-> "dimensionless"], [n |-> "Ks", k |-> "n", v |-> "0.11", u |-> "dimensionless"], [n |-> "Kp", k |-> "n", v |-> "0.04", u |-> "dimensionless"], [n |-> "d_mixing", k |-> "n", v |-> "0.045", u |-> "m"], [n |-> "Qs", k |-> "n", v |-> "0.01", u |-> "m^3/s"], [n |-> "Qp", k |-> "n", v |-> "0.01", u |-> "m^3/s"], [n |-> "P2", k |-> "i", v |-> "133600", u |-> "Pa"], [n |-> "P5", k |-> "n", v |-> "200000.0", u |-> "Pa"], [n |-> "nozzle_retracted", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "max_variations", k |-> "i", v |-> "10000", u |-> "dimensionless"]>>, ret |-> "dict", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "liquid_jet_pump_ancillary", i |-> "0", args |-> <<[n |-> "rhop", k |-> "n", v |-> "998.0", u |-> "kg/m^3"], [n |-> "rhos", k |-> "n", v |-> "1098.0", u |-> "kg/m^3"], [n |-> "Ks", k |-> "n", v |-> "0.11", u |-> "dimensionless"], [n |-> "Kp", k |-> "n", v |-> "0.04", u |-> "dimensionless"], [n |-> "P2", k |-> "i", v |-> "133600", u |-> "Pa"], [n |-> "Qp", k |-> "n", v |-> "0.01", u |-> "m^3/s"], [n |-> "Qs", k |-> "n", v |-> "0.01", u |-> "m^3/s"], [n |-> "d_mixing", k |-> "n", v |-> "0.045", u |-> "m"], [n |-> "d_nozzle", k |-> "n", v |-> "0.02238", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "loss_coefficient_piping", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "D1", k |-> "n", v |-> "0.08", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "material_roughness", i |-> "0", args |-> <<[n |-> "ID", k |-> "s", v |-> "condensate pipes", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "motor_efficiency_underloaded", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "1000.0", u |-> "W"], [n |-> "load", k |-> "n", v |-> "0.9", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "motor_efficiency_underloaded", i |-> "1", args |-> <<[n |-> "P", k |-> "n", v |-> "12000.0", u |-> "W"], [n |-> "load", k |-> "n", v |-> "0.3", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "motor_round_size", i |-> "0", args |-> <<[n |-> "P", k |-> "n", v |-> "100000.0", u |-> "W"]>>, ret |-> "number", units |-> <<"W">>, jit |-> TRUE],
  [f |-> "n_Manning_to_C_Chezy", i |-> "0", args |-> <<[n |-> "n", k |-> "n", v |-> "0.05", u |-> "s/m^(1/3)"], [n |-> "Rh", k |-> "i", v |-> "5", u |-> "m"]>>, ret |-> "number", units |-> <<"m^0.5/s">>, jit |-> TRUE],
  [f |-> "nearest_material_roughness", i |-> "0", args |-> <<[n |-> "name", k |-> "s", v |-> "condensate pipes", u |-> "dimensionless"], [n |-> "clean", k |-> "b", v |-> FALSE, u |-> "dimensionless"]>>, ret |-> "str", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "nearest_pipe", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.021", u |-> "m"]>>, ret |-> "tuple", units |-> <<"dimensionless", "m", "m", "m">>, jit |-> FALSE],
  [f |-> "nearest_pipe", i |-> "1", args |-> <<[n |-> "Do", k |-> "n", v |-> "0.273", u |-> "m"], [n |-> "schedule", k |-> "s", v |-> "5S", u |-> "dimensionless"]>>, ret |-> "tuple", units |-> <<"dimensionless", "m", "m", "m">>, jit |-> FALSE],
  [f |-> "nozzle_expansibility", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "nu_mu_converter", i |-> "0", args |-> <<[n |-> "rho", k |-> "n", v |-> "998.0", u |-> "kg/m^3"], [n |-> "nu", k |-> "n", v |-> "1e-06", u |-> "m^2/s"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "1", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Alshul_1952", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "2", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Avci_Karagoz_2009", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "3", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zigrang_Sylvester_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "4", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zigrang_Sylvester_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "5", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Wood_1966", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "6", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Tsal_1989", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "7", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Swamee_Jain_1976", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "8", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Sonnad_Goudar_2006", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "9", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Shacham_1980", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "10", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Serghides_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "11", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Serghides_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "12", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Round_1980", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "13", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Romeo_2002", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "14", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Papaevangelo_2010", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "15", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Moody", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "16", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Manadilli_1997", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "17", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Jain_1976", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "18", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Haaland", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "19", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Fang_2011", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "20", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Eck_1973", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "21", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Colebrook", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "22", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Churchill_1977", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "23", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Churchill_1973", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "24", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Chen_1979", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "25", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Buzzelli_2008", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "26", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Brkic_2011_2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "27", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Brkic_2011_1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP", i |-> "28", args |-> <<[n |-> "m", k |-> "n", v |-> "10.0", u |-> "kg/s"], [n |-> "rho", k |-> "i", v |-> "1000", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1e-05", u |-> "Pa*s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "L", k |-> "i", v |-> "1", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Barr_1981", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP_acceleration", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rho_o", k |-> "n", v |-> "827.1", u |-> "kg/m^3"], [n |-> "rho_i", k |-> "i", v |-> "830", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP_acceleration", i |-> "1", args |-> <<[n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rho_o", k |-> "n", v |-> "827.1", u |-> "kg/m^3"], [n |-> "rho_i", k |-> "i", v |-> "830", u |-> "kg/m^3"], [n |-> "D_i", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP_dz_acceleration", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rho", k |-> "n", v |-> "827.1", u |-> "kg/m^3"], [n |-> "dv_dP", k |-> "n", v |-> "-1.1e-05", u |-> "m^3/(kg*Pa)"], [n |-> "dP_dL", k |-> "n", v |-> "500000.0", u |-> "Pa/m"], [n |-> "dA_dL", k |-> "n", v |-> "0.0001", u |-> "m^2/m"]>>, ret |-> "number", units |-> <<"Pa/m">>, jit |-> TRUE],
  [f |-> "one_phase_dP_gravitational", i |-> "0", args |-> <<[n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "rho", k |-> "n", v |-> "2.6", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "one_phase_dP_gravitational", i |-> "1", args |-> <<[n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "rho", k |-> "n", v |-> "2.6", u |-> "kg/m^3"], [n |-> "L", k |-> "i", v |-> "4", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "orifice_expansibility", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "orifice_expansibility_1989", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"], [n |-> "P1", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "99000.0", u |-> "Pa"], [n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "pdf_Gates_Gaudin_Schuhman", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0002", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "m", k |-> "n", v |-> "2.3", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"1/m">>, jit |-> TRUE],
  [f |-> "pdf_Gates_Gaudin_Schuhman_basis_integral", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0002", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "m", k |-> "n", v |-> "2.3", u |-> "dimensionless"], [n |-> "n", k |-> "i", v |-> "-3", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "pdf_Rosin_Rammler", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "k", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "m", k |-> "i", v |-> "2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"1/m">>, jit |-> TRUE],
  [f |-> "pdf_Rosin_Rammler_basis_integral", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "k", k |-> "i", v |-> "200", u |-> "dimensionless"], [n |-> "m", k |-> "i", v |-> "2", u |-> "dimensionless"], [n |-> "n", k |-> "i", v |-> "3", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "pdf_lognormal", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "1e-05", u |-> "m"], [n |-> "s", k |-> "n", v |-> "1.1", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"1/m">>, jit |-> FALSE],
  [f |-> "pdf_lognormal_basis_integral", i |-> "0", args |-> <<[n |-> "d", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "d_characteristic", k |-> "n", v |-> "1e-05", u |-> "m"], [n |-> "s", k |-> "n", v |-> "1.1", u |-> "dimensionless"], [n |-> "n", k |-> "i", v |-> "-2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "pitch_angle_solver", i |-> "0", args |-> <<[n |-> "pitch", k |-> "i", v |-> "1", u |-> "m"], [n |-> "angle", k |-> "i", v |-> "30", u |-> "degrees"]>>, ret |-> "tuple", units |-> <<"degrees", "m", "m", "m">>, jit |-> TRUE],
  [f |-> "plate_enlargement_factor", i |-> "0", args |-> <<[n |-> "amplitude", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "wavelength", k |-> "n", v |-> "0.0037", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "polytropic_exponent", i |-> "0", args |-> <<[n |-> "k", k |-> "n", v |-> "1.4", u |-> "dimensionless"], [n |-> "eta_p", k |-> "n", v |-> "0.78", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "psd_spacing", i |-> "0", args |-> <<[n |-> "d_min", k |-> "n", v |-> "5e-05", u |-> "m"], [n |-> "d_max", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "ISO 3310-1 R20/3", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "psd_spacing", i |-> "1", args |-> <<[n |-> "d_min", k |-> "n", v |-> "5e-05", u |-> "m"], [n |-> "d_max", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "ASTM E11", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "psd_spacing", i |-> "2", args |-> <<[n |-> "d_min", k |-> "n", v |-> "5e-05", u |-> "m"], [n |-> "d_max", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "ISO 3310-1", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "psd_spacing", i |-> "3", args |-> <<[n |-> "d_min", k |-> "n", v |-> "5e-05", u |-> "m"], [n |-> "d_max", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "ISO 3310-1 R20", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "psd_spacing", i |-> "4", args |-> <<[n |-> "d_min", k |-> "n", v |-> "5e-05", u |-> "m"], [n |-> "d_max", k |-> "n", v |-> "0.0005", u |-> "m"], [n |-> "method", k |-> "s", v |-> "ISO 3310-1 R10", u |-> "dimensionless"]>>, ret |-> "list", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "relative_roughness", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.5", u |-> "m"], [n |-> "roughness", k |-> "n", v |-> "0.0001", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "roughness_Farshad", i |-> "0", args |-> <<[n |-> "ID", k |-> "s", v |-> "Cr13, bare", u |-> "dimensionless"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "number", units |-> <<"m">>, jit |-> TRUE],
  [f |-> "round_edge_grill", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.4", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "round_edge_grill", i |-> "1", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.4", u |-> "dimensionless"], [n |-> "l", k |-> "n", v |-> "0.15", u |-> "m"], [n |-> "Dh", k |-> "n", v |-> "0.002", u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.0185", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "round_edge_open_mesh", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.96", u |-> "dimensionless"], [n |-> "angle", k |-> "n", v |-> "33.0", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "round_edge_screen", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.5", u |-> "dimensionless"], [n |-> "Re", k |-> "i", v |-> "100", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "round_edge_screen", i |-> "1", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.5", u |-> "dimensionless"], [n |-> "Re", k |-> "i", v |-> "100", u |-> "dimensionless"], [n |-> "angle", k |-> "i", v |-> "45", u |-> "degrees"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "separation_demister_ElDessouky", i |-> "0", args |-> <<[n |-> "vs", k |-> "n", v |-> "1.35", u |-> "m/s"], [n |-> "voidage", k |-> "n", v |-> "0.974", u |-> "dimensionless"], [n |-> "d_wire", k |-> "n", v |-> "0.0002", u |-> "m"], [n |-> "d_drop", k |-> "n", v |-> "0.005", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "size_control_valve_g", i |-> "0", args |-> <<[n |-> "T", k |-> "n", v |-> "433.0", u |-> "K"], [n |-> "MW", k |-> "n", v |-> "44.01", u |-> "g/mol"], [n |-> "mu", k |-> "n", v |-> "0.00014665", u |-> "Pa*s"], [n |-> "gamma", k |-> "n", v |-> "1.3", u |-> "dimensionless"], [n |-> "Z", k |-> "n", v |-> "0.988", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "680000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "310000.0", u |-> "Pa"], [n |-> "Q", k |-> "n", v |-> "1.0555555555555556", u |-> "m^3/s"], [n |-> "D1", k |-> "n", v |-> "0.08", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "d", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.85", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.42", u |-> "dimensionless"], [n |-> "xT", k |-> "n", v |-> "0.6", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> FALSE],
  [f |-> "size_control_valve_g", i |-> "1", args |-> <<[n |-> "T", k |-> "n", v |-> "320.0", u |-> "K"], [n |-> "MW", k |-> "n", v |-> "39.95", u |-> "g/mol"], [n |-> "mu", k |-> "n", v |-> "5.625e-05", u |-> "Pa*s"], [n |-> "gamma", k |-> "n", v |-> "1.67", u |-> "dimensionless"], [n |-> "Z", k |-> "n", v |-> "1.0", u |-> "dimensionless"], [n |-> "P1", k |-> "n", v |-> "280000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "130000.0", u |-> "Pa"], [n |-> "Q", k |-> "n", v |-> "0.0001277777777777778", u |-> "m^3/s"], [n |-> "D1", k |-> "n", v |-> "0.015", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.015", u |-> "m"], [n |-> "d", k |-> "n", v |-> "0.015", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.98", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.07", u |-> "dimensionless"], [n |-> "xT", k |-> "n", v |-> "0.8", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> FALSE],
  [f |-> "size_control_valve_l", i |-> "0", args |-> <<[n |-> "rho", k |-> "n", v |-> "965.4", u |-> "kg/m^3"], [n |-> "Psat", k |-> "n", v |-> "70100.0", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "22120000.0", u |-> "Pa"], [n |-> "mu", k |-> "n", v |-> "0.00031472", u |-> "Pa*s"], [n |-> "P1", k |-> "n", v |-> "680000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "220000.0", u |-> "Pa"], [n |-> "Q", k |-> "n", v |-> "0.1", u |-> "m^3/s"], [n |-> "D1", k |-> "n", v |-> "0.15", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.15", u |-> "m"], [n |-> "d", k |-> "n", v |-> "0.15", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.9", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.46", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> FALSE],
  [f |-> "size_control_valve_l", i |-> "1", args |-> <<[n |-> "rho", k |-> "n", v |-> "965.4", u |-> "kg/m^3"], [n |-> "Psat", k |-> "n", v |-> "70100.0", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "22120000.0", u |-> "Pa"], [n |-> "mu", k |-> "n", v |-> "0.00031472", u |-> "Pa*s"], [n |-> "P1", k |-> "n", v |-> "680000.0", u |-> "Pa"], [n |-> "P2", k |-> "n", v |-> "220000.0", u |-> "Pa"], [n |-> "Q", k |-> "n", v |-> "0.1", u |-> "m^3/s"], [n |-> "D1", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "d", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "FL", k |-> "n", v |-> "0.6", u |-> "dimensionless"], [n |-> "Fd", k |-> "n", v |-> "0.98", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m^3/hr">>, jit |-> FALSE],
  [f |-> "size_tee", i |-> "0", args |-> <<[n |-> "Q1", k |-> "n", v |-> "11.7", u |-> "m^3/s"], [n |-> "Q2", k |-> "n", v |-> "2.74", u |-> "m^3/s"], [n |-> "D", k |-> "n", v |-> "0.762", u |-> "m"], [n |-> "D2", k |-> "z", v |-> "None", u |-> "m"], [n |-> "n", k |-> "i", v |-> "1", u |-> "dimensionless"], [n |-> "pipe_diameters", k |-> "i", v |-> "5", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "specific_area_mesh", i |-> "0", args |-> <<[n |-> "voidage", k |-> "n", v |-> "0.934", u |-> "dimensionless"], [n |-> "d", k |-> "n", v |-> "0.0003", u |-> "m"]>>, ret |-> "number", units |-> <<"m^2/m^3">>, jit |-> TRUE],
  [f |-> "specific_diameter", i |-> "0", args |-> <<[n |-> "Q", k |-> "n", v |-> "0.1", u |-> "m^3/s"], [n |-> "H", k |-> "n", v |-> "10.0", u |-> "m"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"]>>, ret |-> "number", units |-> <<"s^0.5/m^0.25">>, jit |-> TRUE],
  [f |-> "specific_speed", i |-> "0", args |-> <<[n |-> "Q", k |-> "n", v |-> "0.0402", u |-> "m^3/s"], [n |-> "H", k |-> "i", v |-> "100", u |-> "m"], [n |-> "n", k |-> "i", v |-> "3550", u |-> "rpm"]>>, ret |-> "number", units |-> <<"rpm*m^0.75/s^0.5">>, jit |-> TRUE],
  [f |-> "speed_synchronous", i |-> "0", args |-> <<[n |-> "f", k |-> "i", v |-> "50", u |-> "Hz"], [n |-> "poles", k |-> "i", v |-> "12", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"rpm">>, jit |-> TRUE],
  [f |-> "speed_synchronous", i |-> "1", args |-> <<[n |-> "f", k |-> "i", v |-> "60", u |-> "Hz"], [n |-> "poles", k |-> "i", v |-> "2", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"rpm">>, jit |-> TRUE],
  [f |-> "sphericity", i |-> "0", args |-> <<[n |-> "A", k |-> "n", v |-> "10.0", u |-> "m^2"], [n |-> "V", k |-> "n", v |-> "2.0", u |-> "m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "sphericity", i |-> "1", args |-> <<[n |-> "A", k |-> "i", v |-> "54", u |-> "m^2"], [n |-> "V", k |-> "i", v |-> "27", u |-> "m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "spiral", i |-> "0", args |-> <<[n |-> "Di", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "rmax", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "rmin", k |-> "n", v |-> "0.02", u |-> "m"], [n |-> "pitch", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.0185", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "square_edge_grill", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.45", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "square_edge_grill", i |-> "1", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.45", u |-> "dimensionless"], [n |-> "l", k |-> "n", v |-> "0.15", u |-> "m"], [n |-> "Dh", k |-> "n", v |-> "0.002", u |-> "m"], [n |-> "fd", k |-> "n", v |-> "0.0185", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "square_edge_screen", i |-> "0", args |-> <<[n |-> "alpha", k |-> "n", v |-> "0.99", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "stagnation_energy", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "125", u |-> "m/s"]>>, ret |-> "number", units |-> <<"J/kg">>, jit |-> TRUE],
  [f |-> "t_from_gauge", i |-> "0", args |-> <<[n |-> "gauge", k |-> "n", v |-> "0.2", u |-> "dimensionless"], [n |-> "SI", k |-> "b", v |-> FALSE, u |-> "dimensionless"], [n |-> "schedule", k |-> "s", v |-> "BWG", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m">>, jit |-> FALSE],
  [f |-> "thermal_diffusivity", i |-> "0", args |-> <<[n |-> "k", k |-> "n", v |-> "0.02", u |-> "W/m/K"], [n |-> "rho", k |-> "n", v |-> "1.0", u |-> "kg/m^3"], [n |-> "Cp", k |-> "n", v |-> "1000.0", u |-> "J/kg/K"]>>, ret |-> "number", units |-> <<"m^2/s">>, jit |-> TRUE],
  [f |-> "time_helical_ribbon_Grenville", i |-> "0", args |-> <<[n |-> "Kp", k |-> "n", v |-> "357.4", u |-> "dimensionless"], [n |-> "N", k |-> "n", v |-> "0.06666666666666667", u |-> "revolutions/s"]>>, ret |-> "number", units |-> <<"s">>, jit |-> TRUE],
  [f |-> "time_v_terminal_Stokes", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "1e-07", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "V0", k |-> "i", v |-> "1", u |-> "m/s"]>>, ret |-> "number", units |-> <<"s">>, jit |-> FALSE],
  [f |-> "time_v_terminal_Stokes", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2200.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1.2", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "1.78e-05", u |-> "Pa*s"], [n |-> "V0", k |-> "i", v |-> "1", u |-> "m/s"], [n |-> "tol", k |-> "n", v |-> "1e-30", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"s">>, jit |-> FALSE],
  [f |-> "transmission_factor", i |-> "0", args |-> <<[n |-> "fd", k |-> "n", v |-> "0.0185", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "transmission_factor", i |-> "1", args |-> <<[n |-> "F", k |-> "i", v |-> "20", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "1", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Bankoff", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "2", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Baroczy_Chisholm", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "3", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zhang_Hibiki_Mishima flow boiling", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "4", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zhang_Hibiki_Mishima adiabatic gas", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "5", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Zhang_Hibiki_Mishima", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "6", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Yu_France", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "7", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Xu_Fang", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "8", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Wang_Chiang_Lu", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "9", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Tran", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "10", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Theissing", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "11", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Muller_Steinhagen_Heck", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "12", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Mishima_Hibiki", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "13", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Lombardi_Pedrocchi", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "14", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Lockhart_Martinelli", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "15", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Jung_Radermacher", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "16", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Hwang_Kim", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "17", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Gronnerud", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "18", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Friedel", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "19", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Chisholm rough", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP", i |-> "20", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "Method", k |-> "s", v |-> "Chen_Friedel", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP_acceleration", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "xi", k |-> "n", v |-> "0.372", u |-> "dimensionless"], [n |-> "xo", k |-> "n", v |-> "0.557", u |-> "dimensionless"], [n |-> "rho_li", k |-> "n", v |-> "827.1", u |-> "kg/m^3"], [n |-> "rho_gi", k |-> "n", v |-> "3.919", u |-> "kg/m^3"], [n |-> "alpha_i", k |-> "n", v |-> "0.992", u |-> "dimensionless"], [n |-> "alpha_o", k |-> "n", v |-> "0.996", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP_dz_acceleration", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "1", u |-> "kg/s"], [n |-> "D", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "x", k |-> "n", v |-> "0.372", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "827.1", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "3.919", u |-> "kg/m^3"], [n |-> "dv_dP_l", k |-> "n", v |-> "-5e-12", u |-> "m^3/(kg*Pa)"], [n |-> "dv_dP_g", k |-> "n", v |-> "-4e-07", u |-> "m^3/(kg*Pa)"], [n |-> "dx_dP", k |-> "n", v |-> "-2e-07", u |-> "1/Pa"], [n |-> "dP_dL", k |-> "n", v |-> "120.0", u |-> "Pa/m"], [n |-> "dA_dL", k |-> "n", v |-> "0.0001", u |-> "m^2/m"]>>, ret |-> "number", units |-> <<"Pa/m">>, jit |-> TRUE],
  [f |-> "two_phase_dP_dz_gravitational", i |-> "0", args |-> <<[n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "alpha", k |-> "n", v |-> "0.9685", u |-> "dimensionless"], [n |-> "rhol", k |-> "i", v |-> "1518", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.6", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa/m">>, jit |-> TRUE],
  [f |-> "two_phase_dP_gravitational", i |-> "0", args |-> <<[n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "z", k |-> "i", v |-> "2", u |-> "m"], [n |-> "alpha_i", k |-> "n", v |-> "0.9685", u |-> "dimensionless"], [n |-> "rho_li", k |-> "n", v |-> "1518.0", u |-> "kg/m^3"], [n |-> "rho_gi", k |-> "n", v |-> "2.6", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP_gravitational", i |-> "1", args |-> <<[n |-> "angle", k |-> "i", v |-> "90", u |-> "degrees"], [n |-> "z", k |-> "i", v |-> "2", u |-> "m"], [n |-> "alpha_i", k |-> "n", v |-> "0.9685", u |-> "dimensionless"], [n |-> "rho_li", k |-> "n", v |-> "1518.0", u |-> "kg/m^3"], [n |-> "rho_gi", k |-> "n", v |-> "2.6", u |-> "kg/m^3"], [n |-> "alpha_o", k |-> "n", v |-> "0.968", u |-> "dimensionless"], [n |-> "rho_lo", k |-> "n", v |-> "1517.9", u |-> "kg/m^3"], [n |-> "rho_go", k |-> "n", v |-> "2.59", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"Pa">>, jit |-> TRUE],
  [f |-> "two_phase_dP_methods", i |-> "0", args |-> <<[n |-> "m", k |-> "n", v |-> "0.6", u |-> "kg/s"], [n |-> "x", k |-> "n", v |-> "0.1", u |-> "dimensionless"], [n |-> "rhol", k |-> "n", v |-> "915.0", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.67", u |-> "kg/m^3"], [n |-> "mul", k |-> "n", v |-> "0.00018", u |-> "Pa*s"], [n |-> "mug", k |-> "n", v |-> "1.4e-05", u |-> "Pa*s"], [n |-> "sigma", k |-> "n", v |-> "0.0487", u |-> "N/m"], [n |-> "D", k |-> "n", v |-> "0.05", u |-> "m"], [n |-> "L", k |-> "n", v |-> "1.0", u |-> "m"], [n |-> "angle", k |-> "n", v |-> "30.0", u |-> "degrees"], [n |-> "roughness", k |-> "n", v |-> "0.0001", u |-> "m"], [n |-> "P", k |-> "n", v |-> "100000.0", u |-> "Pa"], [n |-> "Pc", k |-> "n", v |-> "1000000.0", u |-> "Pa"]>>, ret |-> "list", units |-> <<"dimensionless">>, jit |-> FALSE],
  [f |-> "two_phase_voidage_experimental", i |-> "0", args |-> <<[n |-> "rho_lg", k |-> "n", v |-> "481.0", u |-> "kg/m^3"], [n |-> "rhol", k |-> "i", v |-> "800", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "2.5", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "v_Souders_Brown", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "0.08", u |-> "m/s"], [n |-> "rhol", k |-> "n", v |-> "985.4", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.3", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_Sounders_Brown", i |-> "0", args |-> <<[n |-> "K", k |-> "n", v |-> "0.08", u |-> "m/s"], [n |-> "rhol", k |-> "n", v |-> "985.4", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.3", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_Sounders_Brown", i |-> "1", args |-> <<[n |-> "K", k |-> "n", v |-> "0.08", u |-> "m/s"], [n |-> "rhol", k |-> "n", v |-> "985.4", u |-> "kg/m^3"], [n |-> "rhog", k |-> "n", v |-> "1.3", u |-> "kg/m^3"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_lift_valve_Crane", i |-> "0", args |-> <<[n |-> "rho", k |-> "n", v |-> "998.2", u |-> "kg/m^3"], [n |-> "D1", k |-> "n", v |-> "0.0627", u |-> "m"], [n |-> "D2", k |-> "n", v |-> "0.0779", u |-> "m"], [n |-> "style", k |-> "s", v |-> "lift check straight", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "1", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Almedeij", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "2", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Barati_high", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "3", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Yen", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "4", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Terfous", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "5", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Swamee_Ojha", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "6", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Stokes", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "7", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Song_Xu", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "8", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Rouse", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "9", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Morsi_Alexander", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "10", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Morrison", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "11", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Mikhailov_Freire", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "12", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Khan_Richardson", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "13", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Haider_Levenspiel", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "14", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Graf", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "15", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Flemmer_Banks", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "16", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Engelund_Hansen", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "17", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Clift_Gauvin", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "18", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Clift", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "19", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Cheng", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "v_terminal", i |-> "20", args |-> <<[n |-> "D", k |-> "n", v |-> "7e-05", u |-> "m"], [n |-> "rhop", k |-> "n", v |-> "2600.0", u |-> "kg/m^3"], [n |-> "rho", k |-> "n", v |-> "1000.0", u |-> "kg/m^3"], [n |-> "mu", k |-> "n", v |-> "0.001", u |-> "Pa*s"], [n |-> "Method", k |-> "s", v |-> "Ceylan", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"m/s">>, jit |-> TRUE],
  [f |-> "vacuum_air_leakage_Coker_Worthington", i |-> "0", args |-> <<[n |-> "P", k |-> "i", v |-> "10000", u |-> "Pa"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "vacuum_air_leakage_HEI2633", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "10", u |-> "m^3"], [n |-> "P", k |-> "i", v |-> "10000", u |-> "Pa"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "vacuum_air_leakage_Ryans_Croll", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "10", u |-> "m^3"], [n |-> "P", k |-> "i", v |-> "10000", u |-> "Pa"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "vacuum_air_leakage_Seider", i |-> "0", args |-> <<[n |-> "V", k |-> "i", v |-> "10", u |-> "m^3"], [n |-> "P", k |-> "i", v |-> "10000", u |-> "Pa"]>>, ret |-> "number", units |-> <<"kg/s">>, jit |-> TRUE],
  [f |-> "velocity_of_approach_factor", i |-> "0", args |-> <<[n |-> "D", k |-> "n", v |-> "0.0739", u |-> "m"], [n |-> "Do", k |-> "n", v |-> "0.0222", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "voidage_Benyahia_Oneil", i |-> "0", args |-> <<[n |-> "Dpe", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "Dt", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "sphericity", k |-> "n", v |-> "0.8", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "voidage_Benyahia_Oneil_cylindrical", i |-> "0", args |-> <<[n |-> "Dpe", k |-> "n", v |-> "0.01", u |-> "m"], [n |-> "Dt", k |-> "n", v |-> "0.1", u |-> "m"], [n |-> "sphericity", k |-> "n", v |-> "0.6", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "voidage_Benyahia_Oneil_spherical", i |-> "0", args |-> <<[n |-> "Dp", k |-> "n", v |-> "0.001", u |-> "m"], [n |-> "Dt", k |-> "n", v |-> "0.05", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "voidage_experimental", i |-> "0", args |-> <<[n |-> "m", k |-> "i", v |-> "126", u |-> "kg"], [n |-> "rho", k |-> "i", v |-> "8000", u |-> "kg/m^3"], [n |-> "D", k |-> "i", v |-> "1", u |-> "m"], [n |-> "H", k |-> "i", v |-> "1", u |-> "m"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE],
  [f |-> "von_Karman", i |-> "0", args |-> <<[n |-> "eD", k |-> "n", v |-> "0.0001", u |-> "dimensionless"]>>, ret |-> "number", units |-> <<"dimensionless">>, jit |-> TRUE] >>
====
