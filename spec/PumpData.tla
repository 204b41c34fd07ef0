---- MODULE PumpData ----
\* Motor, drive and fan tables.
U_VFD_efficiencies ==
  <<<<"0.31", "0.77", "0.86", "0.9", "0.91", "0.93", "0.94">>, <<"0.35", "0.8", "0.88", "0.91", "0.92", "0.94", "0.95">>, <<"0.41", "0.83", "0.9", "0.93", "0.94", 
  "0.95", "0.96">>, <<"0.47", "0.86", "0.93", "0.94", "0.95", "0.96", "0.97">>, <<"0.5", "0.88", "0.93", "0.95", "0.95", "0.96", "0.97">>, <<"0.46", "0.86", 
  "0.92", "0.95", "0.95", "0.96", "0.97">>, <<"0.51", "0.87", "0.92", "0.95", "0.95", "0.96", "0.97">>, <<"0.47", "0.86", "0.93", "0.95", "0.96", "0.97", 
  "0.97">>, <<"0.55", "0.89", "0.94", "0.95", "0.96", "0.97", "0.97">>, <<"0.61", "0.91", "0.95", "0.96", "0.96", "0.97", "0.97">>, <<"0.61", "0.91", "0.95", 
  "0.96", "0.96", "0.97", "0.97">>>>
U_VFD_efficiency_loads ==
  <<"0.016", "0.125", "0.25", "0.42", "0.5", "0.75", "1.0">>
U_VFD_efficiency_powers ==
  <<"3.0", "5.0", "10.0", "20.0", "30.0", "50.0", "60.0", "75.0", "100.0", "200.0", "400.0">>
U_nema_sizes_hp ==
  <<"0.25", "0.3333333333333333", "0.5", "0.75", "1.0", "1.5", "2.0", "3.0", "4.0", "5.0", "5.5", "7.5", "10.0", "15.0", "20.0", "25.0", "30.0", "40.0", "50.0", 
  "60.0", "75.0", "100.0", "125.0", "150.0", "175.0", "200.0", "250.0", "300.0", "350.0", "400.0", "450.0", "500.0">>
U_nema_high_P ==
  <<"1.0", "1.5", "2.0", "3.0", "4.0", "5.0", "5.5", "7.5", "10.0", "15.0", "20.0", "25.0", "30.0", "40.0", "50.0", "60.0", "75.0", "100.0", "125.0", "150.0", 
  "175.0", "200.0">>
U_nema_min_P ==
  <<"1.0", "1.5", "2.0", "3.0", "4.0", "5.0", "5.5", "7.5", "10.0", "15.0", "20.0", "25.0", "30.0", "40.0", "50.0", "60.0", "75.0", "100.0", "125.0", "150.0", 
  "175.0", "200.0", "250.0", "300.0", "350.0", "400.0", "450.0", "500.0">>
U_efficiency_lists ==
  <<<<"0.015807118828266818", "4.3158627514876216", "-8.561209796902544", "8.204035503914739", "-3.014760371804307">>, <<"0.015560190519232379", 
  "4.569973181149315", "-7.680015456946388", "5.470169873838081", "-1.3630071852989643">>, <<"0.059917274403963446", "6.356781885851186", "-17.09919252770337", 
  "20.707077651470666", "-9.221513314937784">>, <<"0.2953614176538984", "4.991818863206433", "-13.785081664656504", "16.908273659093812", "-7.581677513680961">>, 
  <<"0.46934299949154384", "4.0298663805446004", "-11.632822556859477", "14.616967043793032", "-6.6284514347522245">>, <<"0.6823573030424291", 
  "2.440295677102575", "-6.830677099686018", "8.210843291117271", "-3.5629309804411577">>>>
U_efficiency_ones ==
  <<"0.9218102", "0.64307597", "0.61724113", "0.61569791", "0.6172238", "0.40648294">>
U_electrical_plug_types ==
  <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N">>
U_voltages_1_phase_residential ==
  <<"100", "110", "115", "120", "127", "220", "230", "240">>
U_voltages_3_phase ==
  <<"120", "190", "200", "208", "220", "230", "240", "277", "380", "400", "415", "440", "480">>
U_residential_power_frequencies ==
  <<"50", "60">>
U_fan_diameters ==
  <<"0.125", "0.132", "0.14", "0.15", "0.16", "0.17", "0.18", "0.19", "0.2", "0.212", "0.224", "0.236", "0.25", "0.265", "0.28", "0.3", "0.315", "0.335", "0.355", 
  "0.375", "0.4", "0.425", "0.45", "0.475", "0.5", "0.53", "0.56", "0.6", "0.63", "0.67", "0.71", "0.75", "0.8", "0.85", "0.9", "0.95", "1.0">>
U_FMEG_axial_powers ==
  <<"125.0", "300.0", "1000.0", "2500.0", "5000.0", "8000.0", "10000.0", "20000.0", "60000.0", "160000.0", "300000.0", "375000.0", "500000.0">>
U_FMEG_cross_flow_powers ==
  <<"130.0", "300.0", "500.0", "800.0", "1000.0", "2000.0", "3000.0", "4000.0", "5000.0", "8000.0", "10000.0", "16000.0", "22000.0">>
U_motor == <<[high |-> TRUE, closed |-> TRUE, poles |-> 2, e |-> <<"0.77", "0.84", "0.855", "0.865", "0.885", "0.885", "0.885", "0.895", "0.902", "0.91", "0.91", "0.917", "0.917", "0.924", "0.93", "0.936", "0.936", "0.941", "0.95", "0.95", "0.954", "0.954">>],
  [high |-> TRUE, closed |-> TRUE, poles |-> 4, e |-> <<"0.855", "0.865", "0.865", "0.895", "0.895", "0.895", "0.895", "0.917", "0.917", "0.924", "0.93", "0.936", "0.936", "0.941", "0.945", "0.95", "0.954", "0.954", "0.954", "0.958", "0.962", "0.962">>],
  [high |-> TRUE, closed |-> TRUE, poles |-> 6, e |-> <<"0.825", "0.875", "0.885", "0.895", "0.895", "0.895", "0.895", "0.91", "0.91", "0.917", "0.917", "0.93", "0.93", "0.941", "0.941", "0.945", "0.945", "0.95", "0.95", "0.958", "0.958", "0.958">>],
  [high |-> TRUE, closed |-> FALSE, poles |-> 2, e |-> <<"0.77", "0.84", "0.855", "0.855", "0.865", "0.865", "0.865", "0.885", "0.895", "0.902", "0.91", "0.917", "0.917", "0.924", "0.93", "0.936", "0.936", "0.936", "0.941", "0.941", "0.95", "0.95">>],
  [high |-> TRUE, closed |-> FALSE, poles |-> 4, e |-> <<"0.855", "0.865", "0.865", "0.895", "0.895", "0.895", "0.895", "0.91", "0.917", "0.93", "0.93", "0.936", "0.941", "0.941", "0.945", "0.95", "0.95", "0.954", "0.954", "0.958", "0.958", "0.958">>],
  [high |-> TRUE, closed |-> FALSE, poles |-> 6, e |-> <<"0.825", "0.865", "0.875", "0.885", "0.895", "0.895", "0.895", "0.902", "0.917", "0.917", "0.924", "0.93", "0.936", "0.941", "0.941", "0.945", "0.945", "0.95", "0.95", "0.954", "0.954", "0.954">>],
  [high |-> FALSE, closed |-> TRUE, poles |-> 2, e |-> <<"0.755", "0.825", "0.84", "0.855", "0.855", "0.875", "0.875", "0.885", "0.895", "0.902", "0.902", "0.91", "0.91", "0.917", "0.924", "0.93", "0.93", "0.936", "0.945", "0.945", "0.95", "0.95", "0.954", "0.954", "0.954", "0.954", "0.954", "0.954">>],
  [high |-> FALSE, closed |-> TRUE, poles |-> 4, e |-> <<"0.825", "0.84", "0.84", "0.875", "0.875", "0.875", "0.875", "0.895", "0.895", "0.91", "0.91", "0.924", "0.924", "0.93", "0.93", "0.936", "0.941", "0.945", "0.945", "0.95", "0.95", "0.95", "0.95", "0.954", "0.954", "0.954", "0.954", "0.958">>],
  [high |-> FALSE, closed |-> TRUE, poles |-> 6, e |-> <<"0.8", "0.855", "0.865", "0.875", "0.875", "0.875", "0.875", "0.895", "0.895", "0.902", "0.902", "0.917", "0.917", "0.93", "0.93", "0.936", "0.936", "0.941", "0.941", "0.95", "0.95", "0.95", "0.95", "0.95", "0.95", "0.95", "0.95", "0.95">>],
  [high |-> FALSE, closed |-> TRUE, poles |-> 8, e |-> <<"0.74", "0.77", "0.825", "0.84", "0.84", "0.855", "0.855", "0.855", "0.885", "0.885", "0.895", "0.895", "0.91", "0.91", "0.917", "0.917", "0.93", "0.93", "0.936", "0.936", "0.941", "0.941", "0.945", "0.945", "0.945", "0.945", "0.945", "0.945">>],
  [high |-> FALSE, closed |-> FALSE, poles |-> 2, e |-> <<"0.755", "0.825", "0.84", "0.84", "0.84", "0.855", "0.855", "0.875", "0.885", "0.895", "0.902", "0.91", "0.91", "0.917", "0.924", "0.93", "0.93", "0.93", "0.936", "0.936", "0.945", "0.945", "0.945", "0.95", "0.95", "0.954", "0.958", "0.958">>],
  [high |-> FALSE, closed |-> FALSE, poles |-> 4, e |-> <<"0.825", "0.84", "0.84", "0.865", "0.865", "0.875", "0.875", "0.885", "0.895", "0.91", "0.91", "0.917", "0.924", "0.93", "0.93", "0.936", "0.941", "0.941", "0.945", "0.95", "0.95", "0.95", "0.954", "0.954", "0.954", "0.954", "0.958", "0.958">>],
  [high |-> FALSE, closed |-> FALSE, poles |-> 6, e |-> <<"0.8", "0.84", "0.855", "0.865", "0.865", "0.875", "0.875", "0.885", "0.902", "0.902", "0.91", "0.917", "0.924", "0.93", "0.93", "0.936", "0.936", "0.941", "0.941", "0.945", "0.945", "0.945", "0.954", "0.954", "0.954", "0.954", "0.954", "0.954">>],
  [high |-> FALSE, closed |-> FALSE, poles |-> 8, e |-> <<"0.74", "0.755", "0.855", "0.865", "0.865", "0.875", "0.875", "0.885", "0.895", "0.895", "0.902", "0.902", "0.91", "0.91", "0.917", "0.924", "0.936", "0.936", "0.936", "0.936", "0.936", "0.936", "0.945", "0.945", "0.945", "0.945", "0.945", "0.945">>]>>
U_fan_shaft == <<<<"FEG90", <<"0.425", "0.448", "0.472", "0.501", "0.527", "0.552", "0.574", "0.594", "0.613", "0.633", "0.652", "0.669", "0.686", "0.703", "0.718", "0.735", "0.746", "0.759", "0.77", "0.779", "0.789", "0.797", "0.804", "0.81", "0.815", "0.819", "0.823", "0.827", "0.83", "0.833", "0.835", "0.837", "0.838", "0.84", "0.841", "0.841", "0.841">>>>,
  <<"FEG85", <<"0.401", "0.423", "0.446", "0.473", "0.498", "0.521", "0.542", "0.561", "0.579", "0.598", "0.616", "0.631", "0.648", "0.664", "0.678", "0.694", "0.704", "0.717", "0.727", "0.736", "0.745", "0.753", "0.759", "0.765", "0.769", "0.774", "0.777", "0.781", "0.784", "0.786", "0.788", "0.79", "0.791", "0.793", "0.793", "0.794", "0.794">>>>,
  <<"FEG80", <<"0.378", "0.399", "0.421", "0.447", "0.47", "0.492", "0.511", "0.53", "0.546", "0.565", "0.581", "0.596", "0.612", "0.627", "0.64", "0.655", "0.665", "0.676", "0.686", "0.695", "0.703", "0.711", "0.717", "0.722", "0.726", "0.73", "0.734", "0.738", "0.74", "0.742", "0.744", "0.746", "0.747", "0.748", "0.749", "0.75", "0.75">>>>,
  <<"FEG75", <<"0.357", "0.377", "0.398", "0.422", "0.444", "0.464", "0.483", "0.5", "0.516", "0.533", "0.549", "0.563", "0.578", "0.592", "0.604", "0.618", "0.628", "0.639", "0.648", "0.656", "0.664", "0.671", "0.677", "0.681", "0.685", "0.689", "0.693", "0.696", "0.698", "0.701", "0.703", "0.704", "0.705", "0.706", "0.707", "0.708", "0.708">>>>,
  <<"FEG71", <<"0.337", "0.356", "0.375", "0.398", "0.419", "0.438", "0.456", "0.472", "0.487", "0.503", "0.518", "0.531", "0.545", "0.559", "0.57", "0.584", "0.593", "0.603", "0.612", "0.619", "0.627", "0.633", "0.639", "0.643", "0.647", "0.651", "0.654", "0.657", "0.659", "0.661", "0.663", "0.665", "0.666", "0.667", "0.668", "0.668", "0.668">>>>,
  <<"FEG67", <<"0.318", "0.336", "0.354", "0.376", "0.395", "0.414", "0.43", "0.446", "0.46", "0.475", "0.489", "0.502", "0.515", "0.527", "0.538", "0.551", "0.559", "0.569", "0.577", "0.584", "0.592", "0.598", "0.603", "0.607", "0.611", "0.614", "0.617", "0.621", "0.622", "0.624", "0.626", "0.627", "0.629", "0.63", "0.63", "0.631", "0.631">>>>,
  <<"FEG63", <<"0.301", "0.317", "0.334", "0.355", "0.373", "0.39", "0.406", "0.421", "0.434", "0.448", "0.462", "0.473", "0.486", "0.498", "0.508", "0.52", "0.528", "0.537", "0.545", "0.552", "0.559", "0.565", "0.569", "0.573", "0.577", "0.58", "0.583", "0.586", "0.588", "0.59", "0.591", "0.592", "0.594", "0.594", "0.595", "0.595", "0.596">>>>,
  <<"FEG60", <<"0.284", "0.299", "0.316", "0.335", "0.352", "0.369", "0.383", "0.397", "0.41", "0.423", "0.436", "0.447", "0.459", "0.47", "0.48", "0.491", "0.499", "0.507", "0.515", "0.521", "0.528", "0.533", "0.538", "0.541", "0.545", "0.548", "0.55", "0.553", "0.555", "0.557", "0.558", "0.559", "0.56", "0.561", "0.562", "0.562", "0.562">>>>,
  <<"FEG56", <<"0.268", "0.282", "0.298", "0.316", "0.333", "0.348", "0.362", "0.375", "0.387", "0.4", "0.411", "0.422", "0.433", "0.444", "0.453", "0.464", "0.471", "0.479", "0.486", "0.492", "0.498", "0.503", "0.507", "0.511", "0.514", "0.517", "0.519", "0.522", "0.524", "0.525", "0.527", "0.528", "0.529", "0.53", "0.53", "0.531", "0.531">>>>,
  <<"FEG53", <<"0.253", "0.267", "0.281", "0.298", "0.314", "0.329", "0.342", "0.354", "0.365", "0.377", "0.388", "0.398", "0.409", "0.419", "0.428", "0.438", "0.444", "0.452", "0.459", "0.464", "0.47", "0.475", "0.479", "0.482", "0.485", "0.488", "0.49", "0.493", "0.494", "0.496", "0.497", "0.498", "0.499", "0.5", "0.501", "0.501", "0.501">>>>,
  <<"FEG50", <<"0.239", "0.252", "0.266", "0.282", "0.297", "0.31", "0.323", "0.334", "0.345", "0.356", "0.367", "0.376", "0.386", "0.395", "0.404", "0.413", "0.42", "0.427", "0.433", "0.438", "0.444", "0.448", "0.452", "0.455", "0.458", "0.461", "0.463", "0.465", "0.467", "0.468", "0.47", "0.47", "0.471", "0.472", "0.473", "0.473", "0.473">>>>>>
U_fan_axial == <<<<"FMEG27", <<"0.15", "0.174", "0.207", "0.232", "0.251", "0.264", "0.27", "0.275", "0.283", "0.291", "0.296", "0.297", "0.3">>>>,
  <<"FMEG31", <<"0.19", "0.214", "0.247", "0.272", "0.291", "0.304", "0.31", "0.315", "0.323", "0.331", "0.336", "0.337", "0.34">>>>,
  <<"FMEG35", <<"0.23", "0.254", "0.287", "0.312", "0.331", "0.344", "0.35", "0.355", "0.363", "0.371", "0.376", "0.377", "0.38">>>>,
  <<"FMEG39", <<"0.27", "0.294", "0.327", "0.352", "0.371", "0.384", "0.39", "0.395", "0.403", "0.411", "0.416", "0.417", "0.42">>>>,
  <<"FMEG42", <<"0.3", "0.324", "0.357", "0.382", "0.401", "0.414", "0.42", "0.425", "0.433", "0.441", "0.446", "0.447", "0.45">>>>,
  <<"FMEG46", <<"0.34", "0.364", "0.397", "0.422", "0.441", "0.454", "0.46", "0.465", "0.473", "0.481", "0.486", "0.487", "0.49">>>>,
  <<"FMEG50", <<"0.38", "0.404", "0.437", "0.462", "0.481", "0.494", "0.5", "0.505", "0.513", "0.521", "0.526", "0.527", "0.53">>>>,
  <<"FMEG53", <<"0.41", "0.434", "0.467", "0.492", "0.511", "0.524", "0.53", "0.535", "0.543", "0.551", "0.556", "0.557", "0.56">>>>,
  <<"FMEG55", <<"0.43", "0.454", "0.487", "0.512", "0.531", "0.544", "0.55", "0.555", "0.563", "0.571", "0.576", "0.577", "0.58">>>>,
  <<"FMEG58", <<"0.46", "0.484", "0.517", "0.542", "0.561", "0.574", "0.58", "0.585", "0.593", "0.601", "0.606", "0.607", "0.61">>>>,
  <<"FMEG60", <<"0.48", "0.504", "0.537", "0.562", "0.581", "0.594", "0.6", "0.605", "0.613", "0.621", "0.626", "0.627", "0.63">>>>,
  <<"FMEG62", <<"0.5", "0.524", "0.557", "0.582", "0.601", "0.614", "0.62", "0.625", "0.633", "0.641", "0.646", "0.647", "0.65">>>>,
  <<"FMEG64", <<"0.52", "0.544", "0.577", "0.602", "0.621", "0.634", "0.64", "0.645", "0.653", "0.661", "0.666", "0.667", "0.67">>>>,
  <<"FMEG66", <<"0.54", "0.564", "0.597", "0.622", "0.641", "0.654", "0.66", "0.665", "0.673", "0.681", "0.686", "0.687", "0.69">>>>>>
U_fan_backward == <<<<"FMEG35", <<"0.15", "0.19", "0.245", "0.287", "0.318", "0.34", "0.35", "0.357", "0.369", "0.38", "0.387", "0.389", "0.392">>>>,
  <<"FMEG39", <<"0.19", "0.23", "0.285", "0.327", "0.358", "0.38", "0.39", "0.397", "0.409", "0.42", "0.427", "0.429", "0.432">>>>,
  <<"FMEG42", <<"0.22", "0.26", "0.315", "0.357", "0.388", "0.41", "0.42", "0.427", "0.439", "0.45", "0.457", "0.459", "0.462">>>>,
  <<"FMEG46", <<"0.26", "0.3", "0.355", "0.397", "0.428", "0.45", "0.46", "0.467", "0.479", "0.49", "0.497", "0.499", "0.502">>>>,
  <<"FMEG50", <<"0.3", "0.34", "0.395", "0.437", "0.468", "0.49", "0.5", "0.507", "0.519", "0.53", "0.537", "0.539", "0.542">>>>,
  <<"FMEG53", <<"0.33", "0.37", "0.425", "0.467", "0.498", "0.52", "0.53", "0.537", "0.549", "0.56", "0.567", "0.569", "0.572">>>>,
  <<"FMEG55", <<"0.35", "0.39", "0.445", "0.487", "0.518", "0.54", "0.55", "0.557", "0.569", "0.58", "0.587", "0.589", "0.592">>>>,
  <<"FMEG58", <<"0.38", "0.42", "0.475", "0.517", "0.548", "0.57", "0.58", "0.587", "0.599", "0.61", "0.617", "0.619", "0.622">>>>,
  <<"FMEG60", <<"0.4", "0.44", "0.495", "0.537", "0.568", "0.59", "0.6", "0.607", "0.619", "0.63", "0.637", "0.639", "0.642">>>>,
  <<"FMEG62", <<"0.42", "0.46", "0.515", "0.557", "0.588", "0.61", "0.62", "0.627", "0.639", "0.65", "0.657", "0.659", "0.662">>>>,
  <<"FMEG64", <<"0.44", "0.48", "0.535", "0.577", "0.608", "0.63", "0.64", "0.647", "0.659", "0.67", "0.677", "0.679", "0.682">>>>,
  <<"FMEG66", <<"0.46", "0.5", "0.555", "0.597", "0.628", "0.65", "0.66", "0.667", "0.679", "0.69", "0.697", "0.699", "0.702">>>>,
  <<"FMEG68", <<"0.48", "0.52", "0.575", "0.617", "0.648", "0.67", "0.68", "0.687", "0.699", "0.71", "0.717", "0.719", "0.722">>>>,
  <<"FMEG70", <<"0.5", "0.54", "0.595", "0.637", "0.668", "0.69", "0.7", "0.707", "0.719", "0.73", "0.737", "0.739", "0.742">>>>,
  <<"FMEG72", <<"0.52", "0.56", "0.615", "0.657", "0.688", "0.71", "0.72", "0.727", "0.739", "0.75", "0.757", "0.759", "0.762">>>>,
  <<"FMEG74", <<"0.54", "0.58", "0.635", "0.677", "0.708", "0.73", "0.74", "0.747", "0.759", "0.77", "0.777", "0.779", "0.782">>>>,
  <<"FMEG76", <<"0.56", "0.6", "0.655", "0.697", "0.728", "0.75", "0.76", "0.767", "0.779", "0.79", "0.797", "0.799", "0.802">>>>>>
U_fan_cross == <<<<"FMEG08", <<"0.03", "0.04", "0.046", "0.051", "0.054", "0.062", "0.067", "0.07", "0.072", "0.078", "0.08", "0.08", "0.08">>>>,
  <<"FMEG11", <<"0.06", "0.07", "0.076", "0.081", "0.084", "0.092", "0.097", "0.1", "0.102", "0.108", "0.11", "0.11", "0.11">>>>,
  <<"FMEG14", <<"0.09", "0.1", "0.106", "0.111", "0.114", "0.122", "0.127", "0.13", "0.132", "0.138", "0.14", "0.14", "0.14">>>>,
  <<"FMEG19", <<"0.14", "0.15", "0.156", "0.161", "0.164", "0.172", "0.177", "0.18", "0.182", "0.188", "0.19", "0.19", "0.19">>>>,
  <<"FMEG23", <<"0.18", "0.19", "0.196", "0.201", "0.204", "0.212", "0.217", "0.22", "0.222", "0.228", "0.23", "0.23", "0.23">>>>,
  <<"FMEG28", <<"0.23", "0.24", "0.246", "0.251", "0.254", "0.262", "0.267", "0.27", "0.272", "0.278", "0.28", "0.28", "0.28">>>>,
  <<"FMEG32", <<"0.27", "0.28", "0.286", "0.291", "0.294", "0.302", "0.307", "0.31", "0.312", "0.318", "0.32", "0.32", "0.32">>>>>>
U_belt == <<<<"V", "0.95">>,
  <<"notched", "0.97">>,
  <<"cogged", "0.965">>,
  <<"synchronous", "0.98">>>>
U_bearing == <<<<"Deep groove ball", "0.0015">>,
  <<"Angular contact ball Single row", "0.002">>,
  <<"Angular contact ball Double row", "0.0024">>,
  <<"Four point contact ball", "0.0024">>,
  <<"Self aligning ball", "0.001">>,
  <<"Cylindrical roller with cage", "0.0011">>,
  <<"Cylindrical roller full complement", "0.002">>,
  <<"Needle roller", "0.0025">>,
  <<"Taper roller", "0.0018">>,
  <<"Spherical roller", "0.0018">>,
  <<"Thrust ball", "0.0013">>,
  <<"Cylindrical roller thrust", "0.005">>,
  <<"Needle roller thrust", "0.005">>,
  <<"Spherical roller thrust", "0.0018">>>>
====
