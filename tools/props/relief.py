P = [
dict(id='S01', title='Relief valves: API 520/526 sizing picks the least sufficient standard area', name='Relief',
  statement='For every relieving case: the rounded area is the smallest standard API 526 orifice not less than the required area, and an area no single valve provides is refused; the required area for gas (critical and subcritical, switched at the critical pressure ratio), steam (7th and 10th edition) and liquid (with computed or given backpressure and viscosity corrections; no viscosity given means no viscosity correction) equals the API 520 equations; the C, F2, KN, superheat, Kb, Kw and Kv corrections equal the published equations and linear interpolation of the published tables, are 1 below their documented thresholds, and pressures, temperatures, overpressures and editions outside them raise ValueError; relief and flare noise equal API 521 and VDI 3732.',
  over=['inputs', 'configurations'], text='all 14 sizes straddled to 1e-9; all table cells of both editions; backpressure -5% to 90%; gas pressure ratio straddling critical by 1e-7',
  why='Tests check a handful of worked examples; thresholds, table interpolation and option combinations are not covered.',
  files=['fluids/safety_valve.py'], mech=[('sizing', 'fluids/safety_valve.py API520_A_g, API520_A_l, API520_A_steam'), ('selection', 'fluids/safety_valve.py API520_round_size'), ('tables', 'fluids/safety_valve.py API520_SH, API520_B, API520_W')],
  note='tables and equations in TLA+; TLC runs the size search step by step and proves it finds the least fit; recorded calls judged against the spec'),
]
