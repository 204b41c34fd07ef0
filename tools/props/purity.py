P = [
dict(id='H01', title='No call changes what a later call returns, its arguments, or the process', name='Purity',
  statement='For every function and every history of calls - with the same or other arguments, one argument changed at a time, failing calls in between, callers changing the lists and arrays they were given, and fluids.vectorized, fluids.units and fluids.numba imported and used in any order - a call returns exactly what it returns in a process which has just imported the library. No call changes its arguments, the precision of mpmath or decimal, numpy error and print settings, random states, environment, working directory or locale.',
  over=['histories', 'inputs'], text='for each of 509 functions a history of 6-7 moves (up to 12 variations each) chosen so that every wrong memory of the model shows (all revealing histories for a thirty-seventh of them in the thorough tier); 6 orders of importing the adapters; tables, methods and solvers asked again',
  why='Tests call each function in one order in one process; a cache keyed by part of its arguments, a shared list handed out, or a global left changed shows only in a particular history.',
  files=['fluids/friction.py', 'fluids/fittings.py', 'fluids/two_phase_voidage.py', 'fluids/control_valve.py', 'fluids/numba.py', 'fluids/vectorized.py', 'fluids/units.py', 'fluids/numerics/__init__.py'], mech=[('state', 'module globals and caches of every module of fluids'), ('adapters', 'fluids/numba.py transform_complete, fluids/vectorized.py, fluids/units.py')],
  note='machines with wrong memories model-checked to choose histories that reveal them; each call of a history compared with the same call in a freshly forked process',
  limits='objects are decided by the properties of their parts (G02, D01, A01); caches on disk by L01.'),
]
