P = [
dict(id='P01', title='Gas pipeline equations solve consistently for any unknown', name='GasPipe',
  statement='For each gas pipeline flow equation (Panhandle A and B, Weymouth, Spitzglass low and high pressure, Oliphant, Fritzsche, Muller, IGT, and isothermal flow), whichever one of flow, diameter, length, upstream and downstream pressure is left out, the returned value satisfies the documented equation with the given values, so that repeatedly solving for one quantity from the others reproduces the same pipeline, for every pipeline that is physically possible, including short, very long and nearly choked ones. Isothermal solutions never lie beyond choked flow. Leaving out more or fewer than one quantity is refused with ValueError.',
  over=['inputs', 'histories'], text='all pipelines (diameter, length, pressures, gas properties, efficiency, reference conditions), each choice of unknown, all sequences of re-solving',
  why='Each solve direction is tested at a single pipeline; numerical solves (diameter, isothermal pressures) depend on starting guesses and fail elsewhere.',
  files=['fluids/compressible.py'], mech=[('pipeline equations', 'fluids/compressible.py Panhandle_A..IGT'), ('isothermal gas flow and choking', 'fluids/compressible.py isothermal_gas, P_isothermal_critical_flow')],
  note='equations written in TLA+ from their definitions; TLC checks monotonicity and explores all solve sequences up to length 3 (quick) or 4; each is replayed on seeded pipelines'),
dict(id='P02', title='Gas compression, critical flow and stagnation relations are consistent', name='GasThermo',
  statement='Isothermal and isentropic compression work, temperature rise, isentropic and polytropic efficiency and exponent, critical temperature and pressure, isothermal choking pressure, stagnation pressure, temperature and energy follow their documented ideal-gas definitions for compression and expansion; each relation that can be solved for different quantities returns mutually inverse answers, isothermal work is additive over any sequence of stages, the flow is reported critical exactly when the downstream pressure is below the critical pressure, and argument sets that leave none or several quantities open are refused with ValueError.',
  over=['inputs', 'histories'], text='all gases (k, Z), temperatures, pressure ratios above and below one, efficiencies; all stage sequences',
  why='Each relation is tested at one or two points; inverses, expansion and extreme friction are not.',
  files=['fluids/compressible.py'], mech=[('compression and expansion', 'fluids/compressible.py isothermal_work_compression..polytropic_exponent'), ('critical and stagnation conditions', 'fluids/compressible.py T_critical_flow..T_stagnation_ideal')],
  note='definitions written in TLA+; TLC checks that the inverse relations of the specification agree and emits every (relation, unknown) cell, all executed and judged by TLC'),
]
