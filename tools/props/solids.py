P = [
dict(id='D02', title='Drag and settling: published laws, terminal balance, motion obeys drag', name='Drag',
  statement='For every Reynolds number: each of the 21 sphere drag correlations, including every piece of the piecewise ones, equals its published equation; drag_sphere gives exactly the selected one, by default Stokes below 0.01, a linear blend into Barati up to 0.1, Barati up to 212963.27 and Barati_high above (constant beyond 1e6), continuously; unknown names raise ValueError; drag_sphere_methods lists exactly those whose range contains Re, in order, or all of them when ranges are not checked. For every sphere denser than the fluid, v_terminal is Stokes\' velocity when creeping and otherwise the velocity at which drag equals weight less buoyancy, for every correlation within its range; it is always found. The time to terminal velocity and the motion under Stokes\' law equal the closed solutions, however long the time; under any other law the velocity reached at time t and the distance covered satisfy the equation of motion, stay between initial and terminal velocity, and a sphere starting at terminal velocity keeps it; a sphere thrown upwards or far faster than terminal is slowed by the same law.',
  over=['inputs', 'configurations', 'histories'], text='22 laws x 23 Reynolds classes straddled; terminal states constructed to lie in each class; initial velocities at rest, below, above and far above terminal, and upwards; times from 0.01 to 1e5 relaxation times',
  why='Tests check single points per correlation and five trajectories.',
  files=['fluids/drag.py'], mech=[('correlations', 'fluids/drag.py all correlations, drag_sphere, drag_sphere_methods'), ('balance', 'fluids/drag.py v_terminal'), ('motion', 'fluids/drag.py integrate_drag_sphere, time_v_terminal_Stokes')],
  note='correlations and the force balance in TLA+; the trajectory is judged by integrating 1/acceleration over velocity in the specification, not by a second time integrator'),
]
P += [
dict(id='D01', title='Particle size distributions: one law seen in every basis, cut and query order', name='Psd',
  statement='For every lognormal, Gates-Gaudin-Schuhman, Rosin-Rammler and custom distribution of any order, cut below and/or above or not, and any basis n: pdf is the density weighted with d^(n-order) and normalised over the remaining range, zero outside it; cdf is its integral, between 0 and 1; dn inverts cdf and refuses fractions outside 0 to 1; delta_cdf, cdf_discrete and fractions_discrete are the corresponding values and differences; mean_size(p, q) is the ratio of moments to the power 1/(p-q), p = q its limit, mean_size_ISO(k, r) = mean_size(k+r, r), vssa = 6/D[3,2]. The stand-alone pdf, cdf and basis-integral functions equal their definitions. A discrete distribution, of points or size classes, from fractions, counts or cumulative values in any basis: number, length, area and volume fractions each sum to one and are mutually consistent through the representative diameters, their cumulative lists are running sums, moments and surface follow the documented sums, and the interpolated volume cdf is the monotone cubic through the cumulative points with pdf its derivative, zero/one outside. No answer depends on earlier queries of the object. psd_spacing gives the requested linear, logarithmic, Renard or sieve diameters in increasing order and refuses incomplete or unknown requests; sieve openings equal their designations.',
  over=['inputs', 'configurations', 'histories'], text='3 laws x 4 cuts x 4 orders x all pairs of queries over 5 bases; discrete distributions of 2-12 bins; all sieves',
  why='Tests fix one or two parameter sets; consistency between bases, cuts and query orders is not tested.',
  files=['fluids/particle_size_distribution.py'], mech=[('continuous', 'fluids/particle_size_distribution.py ParticleSizeDistributionContinuous and subclasses'), ('discrete', 'fluids/particle_size_distribution.py ParticleSizeDistribution, PSDInterpolated'), ('spacing', 'fluids/particle_size_distribution.py psd_spacing, sieve tables')],
  note='moments in closed form or by quadrature in TLA+, the monotone cubic interpolant written out in TLA+; TLC enumerates query histories which the driver replays against one object and a fresh one'),
]
P += [
dict(id='B03', title='Packed beds, towers, demisters and screens: published drops and flooding', name='Bed',
  statement='For every particle, bed, fluid and flow: each of the 14 packed-bed correlations equals its published equation (with the tube correction when a tube is given, and the changes at voidage 0.4 and tube ratio 50 of Montillet); dP_packed_bed uses exactly the requested one, by default Harrison with a tube and Erdim without, on the particle diameter times sphericity, proportional to the bed length, and refuses unknown names; dP_packed_bed_methods lists exactly the applicable ones in order of preference. The voidage, mesh-area and demister equations equal their published form, separation efficiency never exceeds one. Stichlmair\'s dry drop equals its equation; the wet drop satisfies the implicit hold-up equation on the operable branch, above the dry drop; the flooding velocity is the one at which the wet curve turns vertical; Robbins equals its equation. Screens, nets and grills follow their published tables and equations for every openness, Reynolds number and inclination, constant beyond the tables, with wall friction added only to grills thicker than 50 hydraulic diameters with all of l, Dh and fd known; unknown net types are refused.',
  over=['inputs', 'configurations'], text='15 laws x 8 Reynolds decades x 4 tube classes; packings with random constants up to 90% of flood; all nets, screens, grills with boundary angles and thicknesses',
  why='Tests check one value per correlation and do not check that the flood point or the wet drop satisfies its equation.',
  files=['fluids/packed_bed.py', 'fluids/packed_tower.py', 'fluids/filters.py'], mech=[('beds', 'fluids/packed_bed.py dP_packed_bed and correlations'), ('towers', 'fluids/packed_tower.py Stichlmair_wet, Stichlmair_flood, Robbins'), ('screens', 'fluids/filters.py')],
  note='equations in TLA+; wet drop and flooding judged by their defining implicit equation and the steepness of the wet curve, not by a second solver'),
]
