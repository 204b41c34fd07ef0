P = [
dict(id='K01', title='Loss coefficients of entrances, bends and diameter changes follow their methods', name='Fittings',
  statement='For every geometry, flow and method: the loss coefficient of each entrance (sharp, projecting, angled, rounded, beveled, beveled orifice), exit, bend (rounded, mitered, helix, spiral), contraction (sharp, rounded, conical, beveled) and diffuser (sharp, conical, staged, curved, pipe reducer) equals the documented formula or published fit of the requested method on every branch, with its documented limits (clamping of ratios), default bend radius of five diameters and default unimpeded length of 20 diameters; giving the friction factor or letting it be computed from Reynolds number and roughness, and giving a cone by length or by angle, are equivalent; an unknown method, or a missing input the method needs, is refused with ValueError.',
  over=['inputs', 'configurations'], text='21 functions and 53 function-method pairs over opening ratios 0.04 to 0.97, angles 4 to 180 degrees, Re 150 to 1e8, every clamp and branch point',
  why='Tests check a few points per method; most clamps, branch conditions and option combinations are not covered.',
  files=['fluids/fittings.py'], mech=[('entrances', 'fluids/fittings.py entrance_*'), ('bends', 'fluids/fittings.py bend_rounded*, bend_miter*, Miller_bend_*, helix, spiral'), ('diameter changes', 'fluids/fittings.py contraction_*, diffuser_*')],
  note='formulas, tables and splines in TLA+; TLC walks all (function, method, ratio, angle, flow) cells and judges every real call'),
dict(id='K02', title='Valve, tee, 2K and 3K loss coefficients and flow-coefficient conversions', name='ValveK',
  statement='For every size, seat ratio, approach angle and style: the Crane loss coefficient of each of the 28 valve kinds is the published equivalent-length multiple of the friction factor (given, or the fully turbulent one of the pipe), corrected for a reduced seat by Crane formula 5, 6 or 7, equal through its own function and through Crane_loss_coefficient, with size classes changing at 9 and 15 inches (lower class including the limit); the minimum velocity that lifts a check valve, the tee and wye coefficients on every branch of area and flow ratio, the Darby 3K and Hooper 2K methods for every tabulated fitting (by name, by constants, by nominal size or by inner diameter), change_K_basis and the conversions among K, Kv and Cv equal their documented formulas; an unknown style or name, or missing inputs, are refused with ValueError.',
  over=['inputs', 'configurations'], text='28 valve kinds, 15 lift styles, 4 tee coefficients, 34 Darby and 32 Hooper fittings, 6 conversions over 7 seat ratios and 6 angle classes plus perturbations',
  why='Tests check one or two points per valve; seat ratios, size limits and the dispatcher are barely sampled.',
  files=['fluids/fittings.py'], mech=[('valves', 'fluids/fittings.py K_*_valve_Crane, Crane_loss_coefficient, v_lift_valve_Crane'), ('tees', 'fluids/fittings.py K_branch_*_Crane, K_run_*_Crane'), ('2K, 3K, conversions', 'fluids/fittings.py Darby3K, Hooper2K, Kv_to_K...')],
  note='formulas and constant tables in TLA+; TLC walks all kinds and seat ratios and judges every real call'),
]
