P = [
dict(id='B01', title='Motors, drives and pumps: least sufficient motor and published efficiencies', name='Pump',
  statement='For every power: the rounded motor is the smallest NEMA size not less than it, and a power no single motor provides is refused with ValueError; CSA motor efficiency for every enclosure, pole count and grade, and drive efficiency, equal linear interpolation of the published tables (constant outside them) to four decimals; part-load motor efficiency equals its fitted curve for its power class and is 1 above the load where the curve reaches 1; the Corripio correlations, specific speed, specific diameter, synchronous speed and single/three-phase current equal their equations, other phase counts being refused; and the fan, belt, bearing and national electricity tables are as published and internally consistent.',
  over=['inputs', 'configurations'], text='all motor sizes straddled to 1e-9; every table cell of all 14 motor tables and of the drive table; all 6 part-load classes; loads 0 to 1',
  why='Tests check individual table entries; selection, interpolation between entries and class boundaries are not covered.',
  files=['fluids/pump.py'], mech=[('selection', 'fluids/pump.py motor_round_size'), ('efficiency', 'fluids/pump.py CSA_motor_efficiency, VFD_efficiency, motor_efficiency_underloaded')],
  note='tables in TLA+; TLC runs the size search step by step; recorded calls judged against the spec'),
dict(id='B02', title='Pipes and gauges: nearest standard size is the least sufficient, both ways', name='Pipe',
  statement='For every one of the 86 pipe schedules: asking by inner or outer diameter gives the smallest tabulated pipe whose diameter is not less than asked, so that asking with a diameter of a standard pipe gives that pipe back; asking by nominal size gives exactly that pipe; inner diameter takes precedence over outer over nominal; a schedule given as a number means the same as its name; rows (nominal, inner, outer, wall) are as published; too-large diameters, absent nominal sizes and unknown schedules raise ValueError. For every wire-gauge schedule: thickness from gauge is the table, gauge from thickness inverts it, and between two gauges it is the thicker one unless the thickness is within 10% of the step of the thinner one; too-thick wire and unknown gauges or schedules are refused. Erosional velocity equals API 14E.',
  over=['inputs', 'configurations'], text='all 1340 pipe rows and all 336 wire rows by every key, straddled to 1e-8, and values between rows',
  why='Tests look at a few rows; an off-by-one or rounding slip affects only particular rows.',
  files=['fluids/piping.py'], mech=[('pipes', 'fluids/piping.py nearest_pipe, Di_lookup, Do_lookup, NPS_lookup'), ('gauges', 'fluids/piping.py gauge_from_t, t_from_gauge')],
  note='all tables in TLA+; TLC checks their consistency and runs the search from every row; all rows are asked for in the implementation'),
]
