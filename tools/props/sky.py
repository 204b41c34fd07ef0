P = [
dict(id='A01', title='Atmosphere models follow the 1976 standard and NRLMSISE-00 at every height', name='Atmos',
  statement='For every elevation from 5 km below sea level to 86 km and every temperature offset, ATMOSPHERE_1976 gives the temperature, pressure, density, speed of sound, viscosity, thermal conductivity and gravity of the 1976 standard: base values of each of the eight layers follow from the layer below by the barometric law, the profile is continuous and hydrostatic, and the offset changes the temperature but not the pressure. pressure_integral is the integral of g*rho with the offset that matches T1 where the pressure is P1. airmass is the refraction-corrected path integral for any density profile, angle, planet, index and ceiling. For every elevation to 1000 km, place, day, time, solar flux and optional seven magnetic indices, ATMOSPHERE_NRLMSISE00 reproduces the NRLMSISE-00 model: each species density, temperatures, mass density; and its P, rho_calculated, particle_density and zs are those of an ideal gas of these species.',
  over=['inputs', 'configurations'], text='8 layers x 4 offset classes; 20 altitude regimes of NRLMSISE-00 between its breakpoints, with and without magnetic history, random place, date and activity; 12 path classes',
  why='Tests sample a few standard heights and a handful of thermosphere states; each of about 1500 coefficients and a dozen altitude switches acts only at some place, season, hour and height.',
  files=['fluids/atmosphere.py', 'fluids/nrlmsise00/nrlmsise_00.py', 'fluids/nrlmsise00/nrlmsise_00_data.py'], mech=[('standard', 'fluids/atmosphere.py ATMOSPHERE_1976'), ('path', 'fluids/atmosphere.py airmass'), ('thermosphere', 'fluids/nrlmsise00/nrlmsise_00.py gtd7, gts7, globe7, glob7s, densu, densm')],
  note='layer-by-layer climb specified in TLA+, with the complete NRLMSISE-00 model rewritten in the specification and its coefficient tables frozen there',
  limits='above 86 km the 1976 model is not defined by the library; NRLMSISE-00 coefficients are those published (frozen copy).'),
]
P += [
dict(id='A02', title='Sun position, rise and set, and clear-sky radiation at every place and time', name='Solar',
  statement='For every moment (naive, meaning UTC, or with any time zone), place, elevation, pressure, temperature and refraction, solar_position gives the apparent and true zenith, elevation and azimuth and the equation of time of the Reda-Andreas algorithm, with elevation and zenith complementary; earthsun_distance its radius vector. sunrise_sunset gives the rise, transit and set around the transit of the UTC day of the moment, in order, in UTC or in the zone given, and refuses days without rise. The offset of dynamical time is the Espenak-Meeus polynomial of each era. solar_irradiation gives the Ineichen-Perez clear-sky radiation split into direct, sky and ground parts on any plane, global = direct + diffuse and diffuse = sky + ground, zero at night, with pressure and temperature of the place by default, for every sun position including a surface facing the sun exactly.',
  over=['inputs', 'configurations'], text='2 years (6 in the thorough tier) x 12 months x 4 parts of the day x 5 latitudes x random offsets, 14 eras, 12 radiation classes, 9 time zones',
  why='Tests check fixed dates at two or three places; seasons, hemispheres, date-line, polar day, time-zone and table errors show only at particular times and places.',
  files=['fluids/atmosphere.py', 'fluids/optional/spa.py', 'fluids/optional/irradiance.py'], mech=[('position', 'fluids/optional/spa.py solar_position'), ('times', 'fluids/optional/spa.py transit_sunrise_sunset, fluids/atmosphere.py sunrise_sunset'), ('radiation', 'fluids/atmosphere.py solar_irradiation, fluids/optional/irradiance.py')],
  note='the whole algorithm with its periodic terms written in TLA+; a year of sun positions is the state space of the model',
  limits='radiation: only the isotropic sky and Kasten-Young air mass, the ones available without pvlib; within 1e-4 of polar day or night the rise is not decided.'),
]
