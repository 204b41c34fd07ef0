P = [
dict(id='C01', title='Unit and basis conversions form a consistent groupoid', name='Conv',
  statement='Converting a quantity along any chain of published conversions gives the same value as converting it directly, and converting back returns the original value to within floating-point rounding. This holds for temperatures between Celsius, Kelvin, Fahrenheit and Rankine, for loss coefficient, metric and US flow coefficients, friction factor, equivalent length ratio and equivalent length, for pressure and head, and for dynamic and kinematic viscosity. A viscosity conversion with both or neither viscosity given is refused with ValueError.',
  over=['inputs', 'histories'], text='all finite inputs in the physical range of each quantity, all pipe diameters and densities, all chains of conversions',
  why='The tests compare each conversion with one or two constants; consistency of every chain for every value is not covered.',
  files=['fluids/core.py', 'fluids/fittings.py'],
  mech=[('temperature scale functions', 'fluids/core.py C2K..R2F'), ('flow coefficient functions', 'fluids/fittings.py Kv_to_Cv..Cv_to_K'), ('loss, head and viscosity conversions', 'fluids/core.py K_from_f..P_from_head, nu_mu_converter')],
  note='TLC explores every conversion path up to length 4 (quick) or 6 (thorough), exactly for temperatures; each path is replayed on the real functions with seeded values and every step is judged by TLC'),
dict(id='C02', title='Dimensionless groups match their definition in any unit system', name='Dimless',
  statement='Each dimensionless group function (Reynolds, Prandtl, Grashof, Weber, Archimedes and the others of the core module) returns the value of its documented definition, the same for every accepted set of input arguments that describes the same physical situation, and unchanged when all inputs are expressed in another consistent system of units. An argument set that does not determine the group (for example a velocity and a diameter without any viscosity) is refused with ValueError. The related helpers for thermal diffusivity, ideal-gas speed of sound, gravity, pressure drop and head loss also follow their documented definitions.',
  over=['inputs', 'configurations'], text='every group, every accepted input form, all positive finite inputs, all changes of units',
  why='Each group is tested at one or two points and mostly in one input form; unit independence is never tested.',
  files=['fluids/core.py'], mech=[('dimensionless group functions', 'fluids/core.py Reynolds..relative_roughness')],
  note='the definitions are written in TLA+ with the dimensions of their arguments; TLC checks homogeneity under every unit change and emits every (group, form, units) cell, all executed on the real code and judged by TLC'),
]
