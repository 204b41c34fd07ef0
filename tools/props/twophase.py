P = [
dict(id='T01', title='Two-phase pressure drop: published laws, dispatch, limits and flow maps', name='TwoPhase',
  statement='For every flow, quality, fluid pair and pipe: each two-phase friction correlation equals its published equation with Darcy factors from Colebrook (64/Re below 2040; Kim_Mudawar and Lockhart_Martinelli with their own), in every laminar/turbulent combination of the phases, every mass-flux and Gamma class of Chisholm, every Bond class of Chen-Friedel, and tends to the single-phase drop at quality 0 and 1 where defined; all are proportional to length. Beggs_Brill follows its regime map, hold-up, inclination and friction-ratio equations for any angle up- or downhill, with and without acceleration. two_phase_dP gives exactly the requested correlation, TypeError if an input it needs is missing, ValueError for unknown names; without a name Kim_Mudawar, Chisholm, Zhang_Webb or Lombardi_Pedrocchi, the first the given inputs allow, else ValueError; two_phase_dP_methods lists exactly the usable ones. Acceleration and gravity terms equal their momentum and weight expressions with outlet values defaulting to inlet ones. Taitel_Dukler_regime and Mandhane_Gregory_Aziz_regime return the documented dimensionless numbers/velocities and the pattern in whose region of the map they fall.',
  over=['inputs', 'configurations'], text='23 laws x 16 Reynolds classes of the phases; 24 laws x subsets of 7 optional inputs; Beggs-Brill 5 hold-up x 4 regime classes; states bisected onto both sides of map boundaries',
  why='Tests check one value per correlation and one or two states per map region; branch joins, inclination signs and partial inputs are not covered.',
  files=['fluids/two_phase.py'], mech=[('laws', 'fluids/two_phase.py all correlations'), ('dispatch', 'fluids/two_phase.py two_phase_dP, two_phase_dP_methods'), ('maps', 'fluids/two_phase.py Taitel_Dukler_regime, Mandhane_Gregory_Aziz_regime')],
  note='all correlations, the Beggs-Brill map and both regime maps written out in TLA+; friction factors by bisection of Colebrook inside the specification',
  limits='Taitel-Dukler outside the range of the digitised chart; pressure ratios default of Zhang_Webb called without pressures.'),
dict(id='T02', title='Void fraction, mixture density and viscosity follow their definitions', name='Voidage',
  statement='For every quality, fluid pair, flow, inclination and gravity: each of the 29 void-fraction correlations equals its published equation on both sides of its published limits (Kawahara 75 and 250 um inclusive below, Tandon Re 1125, Domanski Xtt 10, Graham Ft 0.01032, Kopte Ft 0.044), homogeneous being exactly 0 and 1 for single-phase flow; liquid_gas_voidage gives exactly the correlation named (homogeneous by default, TypeError if an input it needs is missing, ValueError for an unknown name) and liquid_gas_voidage_methods lists exactly those whose inputs are given. Lockhart_Martinelli_Xtt applies its exponents, those from n taking precedence. density_two_phase is the volume-weighted density and two_phase_voidage_experimental inverts it. The six mixture viscosities equal their rules and run from mul at quality 0 to mug at quality 1; gas_liquid_viscosity gives the one named (McAdams by default, TypeError without densities it needs, ValueError if unknown), and its method list depends only on the arguments.',
  over=['inputs', 'configurations', 'call histories'], text='29 laws x 9 quality classes, 5 joins from both sides, 29 laws x subsets of 7 optional inputs, 6 mixing rules x optional densities',
  why='Tests check one state per law; wrong branches, dropped optional inputs and quality ends away from that state are not covered.',
  files=['fluids/two_phase_voidage.py'], mech=[('laws', 'fluids/two_phase_voidage.py all correlations'), ('dispatch', 'fluids/two_phase_voidage.py liquid_gas_voidage, liquid_gas_voidage_methods'), ('viscosity', 'fluids/two_phase_voidage.py gas_liquid_viscosity, gas_liquid_viscosity_methods')],
  note='every correlation written out in TLA+ (drift-flux ones as superficial velocity over C0 j + drift)',
  limits='Woldesemayat_Ghajar is specified with the exponent Patm/P of the paper and the code; its docstring shows the inverse.'),
]
