P = [
dict(id='G01', title='Tank volumes and wetted areas equal the integrals over the solid', name='Tank',
  statement='For every vessel made of a cylinder and two heads (none, conical, ellipsoidal, spherical, torispherical, guppy), horizontal or vertical, the liquid volume and wetted surface area reported at any level equal the integrals over that solid, to about 1e-6 of the vessel. Levels below empty or above full behave as empty or full in the stand-alone head functions, volume never decreases with level, and the attributes of a TANK (volumes, areas, head depths, maximum level) are those of the solid however the vessel was specified (diameter, length, ratios, "same" heads, default or given head depth). Unknown head names are refused with ValueError.',
  over=['inputs', 'configurations', 'histories'], text='all pairs of head types, both orientations, all proportions and levels including the levels where formulas switch, diameters from 0.3 m',
  why='Tests sample a handful of published tank sizes; the formulas switch at levels that depend on the geometry (knuckle limits, mid level, hemispheres), which are barely visited.',
  files=['fluids/geometry.py'],
  mech=[('head volume functions', 'fluids/geometry.py V_horiz_*, V_vertical_*, V_from_h'), ('wetted area functions', 'fluids/geometry.py SA_partial_*, SA_from_h, SA_tank, A_partial_circle'), ('vessel object', 'fluids/geometry.py TANK')],
  state=[('liquid level', 'height of liquid in the vessel', 'fluids/geometry.py TANK.V_from_h')],
  assumptions=['wetted area of a dry vertical vessel (level 0) is left open', 'the total area of a guppy head follows the documented (cut cylinder) formula, see known finding'],
  note='TLC explores every vessel configuration and level class; each is executed on the real code with seeded sizes, and TLC compares every result with quadrature over profiles of the solid written in TLA+'),

dict(id='G02', title='Vessel objects: level inverts volume, solves and history', name='TankOps',
  statement='For a TANK of any configuration, the level found for a volume is the level that holds that volume: exactly with the "brenth" method, within the table interval with the spline method, and approximately with Chebyshev approximations; the free-surface area is the derivative of volume with level. Solving a tank for a volume with one of diameter, length or length-to-diameter ratio given returns a tank of that volume which keeps what was given, adding wall thickness enlarges each dimension as documented, and over- or inconsistently specified tanks and unknown methods are refused with ValueError. No query changes the answer of another query, apart from the resolution of the table last built.',
  over=['inputs', 'configurations', 'histories'], text='all head pairs, orientations and proportions; all sequences of queries and table builds up to the explored length',
  why='Tests query each object once; interaction of cached tables, approximations and queries and the inverse at arbitrary volumes are not covered.',
  files=['fluids/geometry.py'], mech=[('vessel object', 'fluids/geometry.py TANK'), ('two-specification solve', 'fluids/geometry.py tank_from_two_specs_err')],
  state=[('table', 'resolution of the last level table', 'fluids/geometry.py TANK.set_table'), ('chebyshev', 'approximation built', 'fluids/geometry.py TANK.set_chebyshev_approximators')],
  assumptions=['from_two_specs uses a local solver without guarantee: at least half of each batch of ten well-posed problems must meet both specifications'],
  note='TLC explores all call sequences of length 3 (quick) or 4 (thorough) on the abstract object; each is executed and judged against the quadrature geometry'),
dict(id='G04', title='Coils, plates, fins, towers and air coolers are consistent solids', name='Solids',
  statement='Helical coils, plate exchangers, rectangular and offset-strip fin exchangers, hyperbolic cooling towers, air coolers, tube-bank pitches, circular segments and simple cylinders report the dimensions, areas, volumes and ratios of the solid they describe, the same for every set of arguments that determines that solid, and totals are the sums over tubes, rows, bundles, bays, plates and layers. Argument sets that do not determine the solid, and coils whose turns collide or whose tube is larger than the coil, are refused with ValueError.',
  over=['inputs', 'configurations'], text='all argument subsets of each constructor and all positive proportions',
  why='Tests check one size per class and few of the alternative parametrisations.',
  files=['fluids/geometry.py'], mech=[('classes', 'fluids/geometry.py HelicalCoil, PlateExchanger, Rectangular*FinExchanger, HyperbolicCoolingTower, AirCooledExchanger'), ('functions', 'fluids/geometry.py pitch_angle_solver, circle_segment_h_from_A, plate_enlargement_factor, *_cylinder, sphericity, circularity')],
  note='TLC explores which argument subsets determine each solid; every subset is executed with seeded sizes and all reported quantities are compared with geometry written in TLA+'),
]
