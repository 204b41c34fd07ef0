P = [
dict(id='O01', title='Weirs, channels, mixers, pneumatic conveying and separators obey their equations', name='OpenFlow',
  statement='For every head, width, angle, slope and roughness, each of the seven weir formulas equals its published equation (Shen coefficients interpolated in the notch angle and held constant outside 20-100 degrees), V_Manning and V_Chezy give one velocity for coefficients converted either way, and every row of the Manning tables is ordered low, normal, high. Agitator mixing time, helical ribbon and motionless mixer numbers equal their equations in both regimes with documented defaults; size_tee gives the CoV of one to four jets, continuous where its exponent changes, for a given or the optimal inlet, and ValueError for other jet counts. Every saltation velocity satisfies its documented implicit relation between loading and Froude numbers, in every branch. The Watkins factor follows the spline or the two fits asked for, York its piecewise curve with pressures held to 1-5500 psia; horizontal vessels get 1.25 times the vertical value; Souders-Brown equations hold under both spellings.',
  over=['inputs', 'configurations'], text='7 weirs x 6 head/angle classes, 4 jet counts x 6 classes, 7 saltation laws x 4 classes, 3 Watkins methods x 4 chart ranges, 6 demister pressure ranges, states on both sides of all limits',
  why='Tests check one value per formula; other branches (jets above the threshold, clamped pressures, angles between table rows) are never evaluated.',
  files=['fluids/open_flow.py', 'fluids/mixing.py', 'fluids/saltation.py', 'fluids/separator.py'],
  mech=[('weirs', 'fluids/open_flow.py all'), ('mixing', 'fluids/mixing.py all'), ('conveying', 'fluids/saltation.py all'), ('separators', 'fluids/separator.py all')],
  note='explicit equations in TLA+; saltation velocities substituted into the implicit relation',
  limits='Q_weir_rectangular_full_SIA and _SIA are specified as documented although the library itself says the former compares terribly with others.'),
dict(id='J01', title='Jet pump and vacuum leakage calculations satisfy their balances', name='JetPump',
  statement='For every pair of fluids, losses and geometry: liquid_jet_pump_ancillary solves the documented inlet energy balance for whichever one of nozzle, chamber, flows or pressures is left out (with the nozzle smaller than the chamber, NaN if no secondary flow is possible) and raises ValueError unless exactly one is missing; liquid_jet_pump solved for any two missing quantities keeps the given ones unchanged, returns positive ones satisfying both the inlet balance and the documented pressure-ratio equation (retracted nozzle or not, with or without a diffuser diameter), reports M, N, R, alpha and efficiency consistent with them, and raises ValueError if not exactly two are missing; the outlet pressure is always obtainable directly. The four vacuum leakage estimates equal their published equations, tables and units at every vacuum and volume, with the documented lower volume and atmospheric pressure.',
  over=['inputs', 'configurations'], text='6 one-missing and 21 two-missing pump problems x retracted x diffuser, plus all under- and over-specified triples; 4 leakage laws across every limit of their tables',
  why='Tests solve three examples, none with a retracted nozzle; sign, default-diameter and unit errors elsewhere pass.',
  files=['fluids/jet_pump.py'], mech=[('inlet', 'fluids/jet_pump.py liquid_jet_pump_ancillary'), ('pump', 'fluids/jet_pump.py liquid_jet_pump, liquid_jet_pump_pressure_ratio'), ('leak', 'fluids/jet_pump.py vacuum_air_leakage_*')],
  note='balances written once in TLA+ and applied to the returned state as residuals',
  limits='for two missing quantities not including P5 the library may answer ValueError (could not solve), except at the documented examples.'),
]
