P = [
dict(id='M01', title='Flow meters: one consistent relation among flow, bore and pressures', name='Meter',
  statement='For every meter type (orifices, nozzles, venturi tubes, cones, wedges; ISO, Miller and Hollingshead methods; every tap arrangement), pipe, bore, fluid and pressure pair: the diameter ratio, discharge coefficient, expansibility, mass flow, permanent pressure drop and the K conversions equal the published correlations on every branch; a generic orifice name means its documented standard method; given coefficients replace computed ones; and the solver is consistent: the flow it finds satisfies the meter equation, and asked for the bore, the upstream or the downstream pressure with that flow it returns a physical value (0<D2<D, P2<P1) that reproduces it, the original value where it is unique. Unknown meter types, unsupported taps, missing C and ill-posed unknowns are refused with ValueError.',
  over=['inputs', 'configurations', 'operation sequences'], text='27 meter types with all tap arrangements over diameter ratio 0.2 to 0.85, Re 500 to 1e8, pressure ratio 0.4 to 1, k from 1 to 1.7; four unknowns solved in turn',
  why='Tests fix one point per meter; consistency between the four solutions and the branches on diameter, Re and taps are not covered.',
  files=['fluids/flow_meter.py'], mech=[('coefficients', 'fluids/flow_meter.py C_*, *_expansibility*'), ('solver', 'fluids/flow_meter.py differential_pressure_meter_solver'), ('dispatch', 'fluids/flow_meter.py differential_pressure_meter_C_epsilon, differential_pressure_meter_beta, differential_pressure_meter_dP')],
  note='formulas and tables in TLA+; TLC walks meter, taps, ratio, flow and pressure cells; every solution is put back into the specified meter equation'),
]
