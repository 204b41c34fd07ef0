P = [
dict(id='F01', title='Pipe friction factors follow Colebrook and their correlations', name='Friction',
  statement='For every Reynolds number and relative roughness: the friction factor is 64/Re in laminar flow (Re below 2040) and otherwise that of the requested method; the default and the Clamond and Colebrook methods solve the Colebrook equation to near full precision; every other named correlation equals its documented formula; the Fanning form is a quarter of the Darcy form; an unknown method is refused with ValueError; the list of applicable methods is exactly those whose documented range contains the operating point. The friction, acceleration and gravity pressure drops, transmission factor, Crane fully turbulent friction factor, and material roughness choices follow their documented definitions.',
  over=['inputs', 'configurations'], text='Re from 10 to 1e9 including every regime and range boundary, relative roughness from 0 to 0.1, all 30 methods, Darcy and Fanning',
  why='Tests check one or two points per correlation; regime boundaries and precision over the whole chart are not covered.',
  files=['fluids/friction.py'], mech=[('correlations', 'fluids/friction.py Colebrook, Clamond, Moody..Fang_2011'), ('method selection', 'fluids/friction.py friction_factor, friction_factor_methods'), ('pressure drops and roughness', 'fluids/friction.py one_phase_dP*, material_roughness')],
  note='formulas, ranges and the Colebrook relation in TLA+; TLC walks all (method, Re class, roughness) cells, checks that the formulas approximate Colebrook inside their ranges, and judges every real call'),
dict(id='F02', title='Coil and plate friction factors follow their correlations and regime choice', name='Curved',
  statement='For every Reynolds number, tube and coil diameter, roughness, chevron angle and enlargement factor: each helical-coil laminar and turbulent friction correlation, each critical Reynolds number, and each plate heat exchanger friction correlation (Martin, VDI, Kumar, Muley-Manglik) equals its documented formula on every branch; friction_factor_curved uses the explicitly named method, or else the laminar method below the critical Reynolds number of the chosen transition method and the turbulent method at or above it, in Darcy form or a quarter of it; the listing of methods matches the regime; an unknown method is refused with ValueError.',
  over=['inputs', 'configurations'], text='Re from 1 to 1e6 with every branch point, coil ratios 0.0025 to 0.45, smooth and rough tubes, chevron angles 10 to 80 degrees, all 11 friction and 6 transition methods',
  why='Tests check one point per correlation; branches, critical Re comparisons and forwarding of options are not covered.',
  files=['fluids/friction.py'], mech=[('coil correlations', 'fluids/friction.py helical_*'), ('regime choice', 'fluids/friction.py friction_factor_curved, friction_factor_curved_methods, helical_Re_crit'), ('plates', 'fluids/friction.py friction_plate_*')],
  note='formulas and regime choice in TLA+; TLC walks all (method, ratio, Re class) cells and judges every real call'),
]
