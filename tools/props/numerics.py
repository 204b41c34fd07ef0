P = [
dict(id='N01', title='Scalar root finders stay in bounds, keep their bracket and return only roots', name='Solver',
  statement='For every function, guess, bracket, bound, tolerance and option: bisect, ridder and brenth evaluate the function only inside the current sign-change bracket, refuse ends of equal sign or NaN, and return an evaluated point whose distance to a sign change is within xtol + rtol*|x| (and whose value is below ytol when given), otherwise UnconvergedError after maxiter. secant, newton and halley evaluate only within low/high, with bisection only between the latest points of opposite sign, follow the secant, Newton or Halley step with the requested damping otherwise, stop only when the requested x and/or y tolerance is met (or an exact zero is hit), return an evaluated point when require_eval is set, and raise UnconvergedError or SamePointError otherwise: a bound is never returned as if it were a root. one_sided_secant never evaluates beyond the flat region and returns only values below ytol. Extra positional and keyword arguments reach the function.',
  over=['inputs', 'histories', 'configurations'], text='7 methods x 10 function families x every set of up to 2 (bracketing) or 3 options; each run replayed step by step against the state machine',
  why='Tests check final roots of a few easy functions; leaving the bracket, stopping early, or returning a bound shows only on particular functions and option combinations.',
  files=['fluids/numerics/__init__.py'], mech=[('bracketing', 'fluids/numerics/__init__.py bisect, ridder, brenth'), ('open', 'fluids/numerics/__init__.py secant, newton, halley, one_sided_secant')],
  note='solver runs recorded evaluation by evaluation and validated against a stateful TLA+ specification of the methods',
  limits='after a zero or non-finite derivative, and with additional_guesses, only bounds and the final answer are decided, not each point of the search.'),
]
P += [
dict(id='N02', title='Linear algebra agrees with exact rational arithmetic and keeps its arguments', name='Linalg',
  statement='For every matrix, det, inv, solve, lu and the direct 2, 3 and 4 dimensional solvers agree with exact rational elimination within rounding scaled by the condition of the matrix, whatever branch (closed form, LU, pivoting) is taken; lu gives P A = L U with a permutation, a unit lower factor bounded by one and an upper factor; matrices with a zero row or column are refused with ValueError. transpose, products, sums, scalar operations, identity, shape, tridiagonal packing and solving, subsets, stable argsort, paired sorting and norm2 equal their definitions, with ValueError for ragged, empty or mismatched input. gelsd returns the least-norm least-squares solution with the exact rank, the residual and singular values, and null_space an orthonormal basis of the exact dimension. No argument is ever modified.',
  over=['inputs', 'configurations'], text='every matrix up to 5x5 reachable by 2 to 4 elementary row operations, 6 random classes to 7x7, every shape up to 5x5 of every rank, all malformed shapes',
  why='Tests use a fixed list of matrices; an error in one of the 120 terms of a determinant, in pivoting order, or in a branch for small determinants needs the right zero pattern.',
  files=['fluids/numerics/arrays.py', 'fluids/numerics/__init__.py'], mech=[('dense', 'fluids/numerics/arrays.py det, inv, lu, solve'), ('least squares', 'fluids/numerics/arrays.py gelsd, null_space'), ('direct', 'fluids/numerics/__init__.py solve_2_direct, solve_3_direct, solve_4_direct')],
  note='exact rational elimination in TLA+ as oracle; the model tracks determinant and inverse through row operations',
  limits='numerically singular but not exactly zero-lined matrices may be refused or answered.'),
]
P += [
dict(id='N03', title='Polynomials, Chebyshev series and their roots agree with exact algebra', name='Polys',
  statement='For every list of coefficients and argument: the Horner, domain-mapped, offset and scaled, Chebyshev, ln(1 - T/Tc), exponential and logarithmic evaluators return the value and the first to fourth derivatives of the function they name, within rounding of exact rational arithmetic; those in ln(1 - T/Tc) are zero at and above Tc and exponentials saturate instead of overflowing where documented. Differentiation, integration, integration over x, addition, multiplication, change of domain and Chebyshev differentiation and integration (any order, scale and lower bound) equal the exact operation, with the documented number of coefficients. Quadratic, cubic and quartic solvers return every root with its multiplicity, including degenerate leading coefficients; fitted quadratics and exponential fits reproduce the values and derivatives given; integrals of a polynomial continued by straight lines outside its limits are additive and change sign with direction; sign and monotonicity tests are right.',
  over=['inputs', 'configurations'], text='12 evaluator families x 0 to 7 coefficients x 0 to 4 derivatives x position; all polynomials reachable by 4 operations; every pair of places of the ends of a piecewise integral',
  why='Tests evaluate a few fitted correlations; a wrong term in a third derivative, an extrapolation branch or one root formula shows only for particular degrees, signs and intervals.',
  files=['fluids/numerics/polynomial_evaluation.py', 'fluids/numerics/polynomial_roots.py', 'fluids/numerics/polynomial_utils.py', 'fluids/numerics/__init__.py'],
  mech=[('evaluation', 'fluids/numerics/polynomial_evaluation.py'), ('roots', 'fluids/numerics/polynomial_roots.py'), ('operations', 'fluids/numerics/polynomial_utils.py'), ('Chebyshev and fits', 'fluids/numerics/__init__.py chebval, chebder, chebint, exp_cheb, fit_integral_*, poly_fit_integral_*, evaluate_linear_fits')],
  note='exact rational polynomial algebra in TLA+ as oracle; its laws model-checked on reachable polynomials',
  limits='closed-form cubic and quartic roots are decided for separated roots (1e-7 to 1e-9), repeated roots only for quadratics and roots_cubic (1e-3); roots_cubic_a1, roots_cubic_a2 and roots_quartic divide by zero at triple roots.'),
]
P += [
dict(id='N04', title='Solvers of systems and minimisers take their own steps and return only solutions', name='Systems',
  statement='For every system, guess and option: newton_system evaluates only points a fraction of the damped Newton step away from the last accepted point, trying 1, 0.99, 0.98, ... with line search and accepting when the summed error falls; newton_minimize does so on the gradient; the fixed-point iterations step to x - damping f(x); all stop exactly when the requested xtol and/or ytol is met, return the point and the number of iterations, and raise UnconvergedError otherwise (ValueError when progress is required or a value is not finite). homotopy_solver, broyden2 and the Anderson accelerations return only points whose residual is within tolerance. nelder_mead follows reflection, expansion and contraction of a simplex inside its bounds and returns the best point evaluated. derivative, jacobian and hessian are exact on polynomials within rounding and stay within limits. Bounded variables, step dampers, the oscillation detector, best_bounding_bounds and SolverInterface (lists or arrays, call counts) do what they document.',
  over=['inputs', 'histories', 'configurations'], text='7 Newton variants x 3 systems x 3 tolerances x 1 to 3 variables, 54 fixed-point and 30 simplex configurations, each run replayed evaluation by evaluation; histories of dampers and oscillation',
  why='Tests check final answers of smooth problems; a wrong stopping test, a step outside the bounds or a line search accepting a worse point needs particular options and error histories.',
  files=['fluids/numerics/__init__.py'], mech=[('systems', 'fluids/numerics/__init__.py newton_system, newton_minimize, homotopy_solver, broyden2, fixed_point*'), ('minimiser', 'fluids/numerics/__init__.py nelder_mead'), ('differences', 'fluids/numerics/__init__.py derivative, jacobian, hessian'), ('helpers', 'fluids/numerics/__init__.py translate_bound_*, damping_*, OscillationChecker, best_bounding_bounds, SolverInterface')],
  note='runs recorded evaluation by evaluation and validated against a stateful TLA+ specification; the line-search machine is model-checked over all error histories',
  limits='acceleration formulas (Aitken, GDEM, Anderson) are decided only through convergence; with Armijo set, a full step that lowers the error may be accepted or shortened.'),
]

P += [
dict(id='N05', title='Interpolation, splines and quadrature agree with exact rational definitions', name='Interpolate',
  statement='For every table, spline, integrand and argument: binary_search returns how many sorted entries are at most the key, less one (the length above the last); interp, interp2d_linear and tck_interp2d_linear return table values exactly at nodes and the straight line or bilinear surface through them between, with the documented ends (held, given, or extrapolated); py_splev and py_bisplev equal the B-spline of de Boor at any degree up to 5, knots repeated or not and any number of them, with the ext rule outside; cumulative_trapezoid is the running trapezoid sum (unit spacing by default); fixed_quad_Gauss_Kronrod is exact to degree 31 (19 for the inner rule); quad_adaptive evaluates exactly the rule on the halves whose error exceeds the share of the tolerance left, adds their areas and errors, and like quad, lazy_quad, dblquad and nquad (any number of variables, extra arguments, limits depending on outer variables) gives the integral within tolerance.',
  over=['inputs', 'configurations'], text='320 cells: table sizes 1 to 40 with positions on every side of every kind of node, degrees 0 to 5 by ext by position, 25 bivariate degrees, integrands smooth, kinked and stepped by tolerances and directions',
  why='Tests evaluate a handful of points; an off-by-one at an end node, a repeated knot, a lost error share or a swapped axis shows only there.',
  files=['fluids/numerics/__init__.py'], mech=[('search and lines', 'fluids/numerics/__init__.py binary_search, interp, interp2d_linear'), ('splines', 'fluids/numerics/__init__.py py_splev, fpbspl, init_w, bispev_inner, tck_interp2d_linear'), ('quadrature', 'fluids/numerics/__init__.py fixed_quad_Gauss_Kronrod, quad_adaptive, nquad, dblquad, cumulative_trapezoid')],
  note='results validated against a TLA+ specification over exact rationals; adaptive quadrature replayed evaluation by evaluation; binary search model-checked on all small sorted sequences',
  limits='splines outside their knots amplify rounding and are compared with a tolerance growing with degree; quadrature reaching its depth limit is checked for its area, not its accuracy.'),
]
P += [
dict(id='N06', title='Numeric helpers equal their definitions on every shape and edge value', name='Helpers',
  statement='For every input: linspace and logspace give the requested number of exactly spaced points, ends exact; product, cumulative sum, mean, standard deviation, normalisation and n-th differences equal the exact rational result within rounding; each error measure (maximum or mean, absolute or squared, relative or not) is the one it names with its documented value at zero data; ratio extremes and outliers are those of the definition. assert_close to assert_close4d and isclose accept exactly values within the tolerances at every nesting depth, refuse different shapes, and never accept what they cannot compare. zeros and full give the shape and type asked, rows independent. The dilogarithm, Lambert W (both branches), truncated exp and log, factorials, combinations, hypotenuse, cube root, sincos and complex inverse functions invert or equal their functions on the principal branch. The caching decorator calls its function once per distinct argument and returns that value ever after.',
  over=['inputs', 'histories', 'configurations'], text='230 cells: every helper by kind of data; comparisons at nesting 0 to 4 by 11 kinds of difference; all histories of up to 5 calls of a memo',
  why='Tests check one ordinary example each; a tolerance taken from the wrong side, a shape accepted at one nesting depth, a branch cut or a cached value shows only for particular inputs.',
  files=['fluids/numerics/__init__.py', 'fluids/numerics/special.py', 'fluids/numerics/arrays.py'], mech=[('sequences', 'fluids/numerics/__init__.py linspace, logspace, diff, cumsum'), ('measures', 'fluids/numerics/__init__.py max_abs_error..., min_max_ratios'), ('comparison', 'fluids/numerics/__init__.py assert_close*, isclose'), ('special', 'fluids/numerics/special.py, fluids/numerics/__init__.py polylog2, py_lambertw')],
  note='results validated against TLA+ definitions over exact rationals; the memo is a state machine model-checked over all histories',
  limits='comparisons within 1e-12 of a tolerance are not decided; polylog2 is decided to its documented 1e-7.'),
]
P += [
dict(id='N07', title='Double-double arithmetic is accurate to its 31 digits and correctly ordered', name='DDouble',
  statement='For all pairs (value = large + small part): the product of two plain numbers is exact; sum, product, quotient, square, cube, root, exponential, logarithm, integer and real powers differ from the exact result by no more than a few units in the 31st digit (times the condition of exp, log and powers) (cube roots of the 28th), with the small part at most half a unit in the last place of the large; comparisons are those of the exact values; complex sum, product, quotient and inverse are accurate in norm and complex square and cube roots are the principal ones. This holds along chains of operations.',
  over=['inputs', 'histories'], text='10 operations x 4 kinds of small part x 5 magnitudes, powers -6 to 12, 7 complex operations x 7 directions, all pairs of operations chained',
  why='Tests check a few values; losing a term of an error, a sign or a branch shows only in the last digits for some magnitudes or quadrants.',
  files=['fluids/numerics/doubledouble.py'], mech=[('real', 'fluids/numerics/doubledouble.py add_dd, mul_dd, div_dd, sqrt_dd, cbrt_dd, exp_dd, log_dd, intpow_dd, pow_dd'), ('complex', 'fluids/numerics/doubledouble.py mul_imag_dd, sqrt_imag_dd, cbrt_imag_dd')],
  note='results validated against exact rationals in TLA+; the error-free sum and product are model-checked over every pair of numbers of a small binary format',
  limits='overflow and underflow (magnitudes beyond 1e60, exp beyond 300) are not decided; cube roots only of positive reals; complex square roots with a relative tolerance of 1e-27.'),
]
P += [
dict(id='N08', title='Chebyshev function objects obey the algebra and calculus of their functions', name='Chebfuns',
  statement='For every function object made from values, coefficients, a scalar, another object or a sampled function, on every interval: it evaluates (at a number or an array) to its Chebyshev series at the mapped point, its coefficients are those of the polynomial through its node values with negligible ones dropped, and its interval is kept by every operation. Sums, differences, products, quotients, powers, negation, absolute value and elementary functions are pointwise; derivatives, primitives (zero at the left end), integrals, scalar products and norms are the exact ones; restriction gives the same function on the smaller interval; no operation changes its operands. roots returns every real root inside the interval once and no others, also of functions with hundreds of nodes; build_solve_pychebfun ends and returns all crossings found. Conversions to polynomials, also as text, stand for the same function. Mismatched intervals, restriction outside, non-functions and functions that no series resolves are refused.',
  over=['inputs', 'histories', 'configurations'], text='every sequence of up to 2 (thorough: 3) of 18 operations on a pair of functions; 10 constructions x 4 sizes x 5 kinds of interval; 24 elementary functions; root counts 0 to 150',
  why='The fits are only tested through two curve examples; a wrong end of the interval, a derivative of a short series or a lost root shows only for particular sizes and intervals.',
  files=['fluids/optional/pychebfun.py'], mech=[('representation', 'fluids/optional/pychebfun.py from_function, from_coeff, polyfit, polyval, interpolator'), ('operations', 'fluids/optional/pychebfun.py __add__, _add_operator, _add_delegate, integrate, differentiate, restrict'), ('roots and conversion', 'fluids/optional/pychebfun.py roots, build_solve_pychebfun, chebfun_to_poly, cheb_to_poly')],
  note='state of the exact series of both operands followed through operation sequences in TLA+ over exact rationals; the laws of the operations model-checked on every reachable pair',
  limits='multiple roots, and roots within 3% of the ends of the interval, are not decided; adaptive sampling is only decided for functions it resolves.'),
]
