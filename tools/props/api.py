P = [
dict(id='W01', title='Array calls equal scalar calls element by element', name='Arrays',
  statement='For every public function of fluids.vectorized that takes scalars, and for every split of its numeric arguments into arrays of shapes that broadcast together (scalars, rows, columns, blocks; lists or numpy arrays), the result has the broadcast shape and every element equals the scalar function of fluids at the elements which meet there, whatever the other elements of the arrays are and in whatever order they come; a function with several results gives one array for each.',
  over=['inputs', 'configurations'], text='509 public functions (572 documented examples) x 2-3 pairs of 7 shapes (all 37 compatible pairs in the thorough tier), and arrays of 8 points spread over two decades in both orders',
  why='Tests vectorise a handful of functions over one array; results which depend on the first element, on the order or on the type of an element show only for particular functions and mixtures of regimes.',
  files=['fluids/vectorized.py', 'fluids/pump.py', 'fluids/control_valve.py', 'fluids/fittings.py'], mech=[('arrays', 'fluids/vectorized.py'), ('scalar functions', 'every module of fluids')],
  note='array broadcasting specified in TLA+ (row-major index maps with their algebraic laws checked by TLC); the interface of 509 functions frozen in ApiData',
  limits='functions which take or return lists are not vectorised by the library; elements at which the scalar function raises or returns a non-finite number are not compared.'),
]
P += [
dict(id='W02', title='Compiled functions give the answers of the plain functions', name='Compiled',
  statement='Every function of fluids.numba which can be compiled returns, for every valid input, what the plain Python function returns (to the tolerance of its iterations), including every named method, tuples and lists; whatever argument types it was compiled for before; and it refuses unknown methods as the plain function does.',
  over=['inputs', 'configurations', 'histories'], text='473 compilable functions with all their documented examples and named methods (796 calls), each again at random inputs, and recompiled for integers on an eighth of them (all histories of three signatures in the thorough tier)',
  why='The compiled library is produced by rewriting source text, replacing lists by arrays and substituting solvers; a tested function says nothing about the other 450, and errors show only in the compiled version.',
  files=['fluids/numba.py', 'fluids/numerics/__init__.py', 'fluids/friction.py', 'fluids/fittings.py', 'fluids/geometry.py'], mech=[('rewriting', 'fluids/numba.py transform_module, transform_lists_to_arrays, create_numerics'), ('functions', 'every module of fluids')],
  note='compilation history as the state machine; every compiled call is judged against the plain call recorded beside it',
  limits='functions outside the frozen list cannot be compiled by the library; inputs at which the plain function raises are compared for unknown methods only.'),
]

P += [
dict(id='W03', title='Calls with units equal plain calls in any compatible units', name='Units',
  statement='Every documented function of fluids.units, called with quantities in any units which measure what its documentation asks for, positional or by name, scalars or arrays, returns the number the plain function returns for the same quantities expressed in the documented units, with the dimensions of the quantity the result is (for functions which solve for a missing argument, those of that argument); objects carry the units of their attributes and methods; a quantity of the wrong dimensions is refused with ValueError and a bare number for a dimensional argument with TypeError; names, lists of names and booleans are passed as they are.',
  over=['inputs', 'configurations'], text='854 documented calls of 509 functions and 13 objects x units chosen from 150 units of 45 quantities (2 rounds, 12 in the thorough tier), arrays, refusals',
  why='Units are read out of docstrings: a typing error there silently changes what a number means. Tests call a few dozen functions in documented units.',
  files=['fluids/units.py'], mech=[('units', 'fluids/units.py wraps_numpydoc, UnitAwareClass, variable_output_wrapper'), ('documented units', 'docstrings of every module of fluids')],
  note='unit table (scale, offset, dimensions) specified in TLA+ with conversion laws checked by TLC; documented units of arguments and results frozen in ApiData',
  limits='the particle size distribution classes, which document no constructor, the solar flux arguments of ATMOSPHERE_NRLMSISE00 (documented in a scaled unit pint cannot convert to), and functions without documentation are not reachable through units; values at which the plain function is discontinuous within rounding are not compared.'),
]
