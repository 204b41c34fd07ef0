P = [
dict(id='V01', title='Control valves: sizing, choking, conversions and noise follow IEC 60534', name='CValve',
  statement='For every liquid or gas, pressure pair, flow, valve style (FL, Fd, xT) and fittings: the required flow coefficient equals the IEC 60534-2-1 procedure on every branch - turbulent, choked, laminar, with reducers iterated to the documented agreement - and allow_choked, allow_laminar and full_output change exactly what they document; full output agrees with the plain answer and reports choking, regime, and the piping, Reynolds and expansion factors. Choking tests and the choke pressures agree with one another (liquid and gas), conversion among Kv, Cv and Av is invertible, the Reynolds factor and piping loss, the inherent opening characteristics, and the liquid (8-4) and gas (8-3) noise predictions equal the standards in every regime. Incomplete diameters, over- or underspecified choke questions and unknown scales are refused.',
  over=['inputs', 'configurations'], text='liquid and gas sizing over 6 regimes x 5 fittings x 4 option sets x 3 styles; noise in all 3 liquid and 5 gas regimes; choke limits straddled by 1e-7; opening anywhere in 0..1',
  why='Tests are the worked examples of the standard; option/regime combinations, boundaries and the iteration under strong reducers are not covered.',
  files=['fluids/control_valve.py'], mech=[('sizing', 'fluids/control_valve.py size_control_valve_l, size_control_valve_g'), ('choke', 'fluids/control_valve.py control_valve_choke_P_l, is_choked_turbulent_*'), ('noise', 'fluids/control_valve.py control_valve_noise_l_2015, control_valve_noise_g_2011')],
  note='sizing procedure specified step by step in TLA+ (TLC walks its passes), standard formulas and tables; every recorded call judged against it'),
]
