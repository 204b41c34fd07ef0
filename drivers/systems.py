import copy, math
import numpy as np
from fluids import numerics as N


def prob(p, n, rng):
    A = [[rng.uniform(-1, 1)*.4 for _ in range(n)] for _ in range(n)]
    for i in range(n): A[i][i] = rng.choice([-1, 1])*rng.uniform(1.2, 3)
    if p != 'linear':
        for i in range(n): A[i][i] = 0.0
    xs = [rng.uniform(.3, 2.0) for _ in range(n)]
    c = [rng.uniform(0, 1) for _ in range(n)]
    q = dict(p=p, A=A, c=c, b=[0.0]*n)
    q['b'] = F(q, xs)
    x0 = [x + rng.uniform(-.8, .8) if p != 'linear' else rng.uniform(-5, 5) for x in xs]
    if p == 'quad': x0 = [abs(x) + .1 for x in x0]
    return q, xs, x0


def F(q, x):
    n = len(x)
    out = []
    for i in range(n):
        v = sum(q['A'][i][j]*x[j] for j in range(n)) - q['b'][i]
        if q['p'] == 'quad': v += x[i]*x[i]*1.5 + (1 + q['c'][i])*x[i]
        if q['p'] == 'exp': v += math.exp(min(x[i], 700.0)) + q['c'][i]*x[i]
        out.append(v)
    return out


def J(q, x):
    n = len(x)
    M = [[q['A'][i][j] for j in range(n)] for i in range(n)]
    for i in range(n):
        if q['p'] == 'quad': M[i][i] += 3.0*x[i] + 1 + q['c'][i]
        if q['p'] == 'exp': M[i][i] += math.exp(min(x[i], 700.0)) + q['c'][i]
    return M


def ans(r):
    if isinstance(r, BaseException): return '!' + type(r).__name__
    return list(r) if isinstance(r, tuple) else r


def attempt(f):
    try: return ans(f())
    except Exception as ex: return ans(ex)


def tols(t, rng, kw):
    if 'x' in t: kw['xtol'] = rng.choice([1e-4, 1e-7, 1e-10])
    if 'y' in t: kw['ytol'] = rng.choice([1e-3, 1e-6, 1e-9])
    return kw


def opts(kw, skip): return {k: v for k, v in kw.items() if k not in skip}


def newton_run(**kw):
    q, v = kw['q'], kw['v']
    xs, fs = [], []
    def f(x, *extra):
        xs.append(list(x)); r = F(q, x); fs.append(list(r)); return (r, J(q, x)) if v == 'newton_jac' else r
    o = opts(kw, ('q', 'v', 'x0', 'flags'))
    if v in ('search', 'armijo', 'progress'): o['line_search'] = True
    if v in ('armijo', 'progress'): o.update(Armijo=True, check_numbers=True)
    if v == 'progress': o['require_progress'] = True
    if v == 'dampfn': o['damping_func'] = lambda x, dx, d, *a: [a_ + .5*d*b for a_, b in zip(x, dx)]
    r = attempt(lambda: N.newton_system(f, list(kw['x0']), jac=True if v == 'newton_jac' else (lambda x, *a: J(q, x)), **o))
    return dict(ret=r, xs=xs, fs=fs, js=[J(q, x) for x in xs])


def wild(q, rng, n):
    """a start from which full steps overshoot"""
    return [rng.uniform(-6, -3) if q['p'] == 'exp' else rng.uniform(.01, .2) for _ in range(n)]


def newton(job, rng, T):
    v, n = job['v'], job['n']
    q, xs, x0 = prob(job['p'], n, rng)
    kw = dict(q=q, v=v, x0=x0)
    tols(job['t'], rng, kw)
    if v in ('search', 'armijo', 'progress') and rng.random() < .7: kw['x0'] = wild(q, rng, n)
    if v == 'damped': kw['damping'] = rng.choice([.5, .8, .3])
    if rng.random() < .3: kw['maxiter'] = rng.choice([1, 2, 3, 5])
    if rng.random() < .15: kw['x0'] = list(xs)
    T.call('newton', newton_run, kw)


def G(q, x):
    """gradient and Hessian of sum exp(a x) + x.M.x/2 - b.x"""
    n = len(x)
    g = [q['a'][i]*math.exp(min(q['a'][i]*x[i], 300.)) + sum(q['M'][i][j]*x[j] for j in range(n)) - q['b'][i] for i in range(n)]
    H = [[q['M'][i][j] + (q['a'][i]**2*math.exp(min(q['a'][i]*x[i], 300.)) if i == j else 0.0) for j in range(n)] for i in range(n)]
    return g, H


def minimize_run(**kw):
    q, v = kw['q'], kw['v']
    xs = []
    def f(x, *a):
        xs.append(list(x)); g, H = G(q, x)
        return (0.0, g) if v == 'jac' else (0.0, g, H) if v == 'hess' else 0.0
    o = opts(kw, ('q', 'v', 'x0'))
    # the three ways to give derivatives
    r = attempt(lambda: N.newton_minimize(f, list(kw['x0']), jac=True if v in ('jac', 'hess') else (lambda x, *a: G(q, x)[0]), hess=True if v == 'hess' else (lambda x, *a: G(q, x)[1]), **o))
    return dict(ret=r, xs=xs, gs=[G(q, x)[0] for x in xs], hs=[G(q, x)[1] for x in xs])


def minimize(job, rng, T):
    v, n = job['v'], job['n']
    M = [[0.0]*n for _ in range(n)]
    for i in range(n):
        M[i][i] = rng.uniform(1, 3)
        for j in range(i): M[i][j] = M[j][i] = rng.uniform(-.3, .3)
    q = dict(a=[rng.uniform(.2, 1.5) for _ in range(n)], M=M, b=[rng.uniform(-2, 2) for _ in range(n)])
    kw = dict(q=q, v=v, x0=[rng.uniform(-2, 2) for _ in range(n)])
    tols(job['t'], rng, kw)
    if v == 'damped': kw['damping'] = rng.choice([.5, .9])
    if v == 'few': kw['maxiter'] = rng.choice([0, 1, 2])
    T.call('minimize', minimize_run, kw)


def contraction(n, rng, size=.8):
    M = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    s = max(sum(map(abs, r)) for r in M)
    M = [[x*size/s for x in r] for r in M]
    return dict(M=M, b=[rng.uniform(1, 3) for _ in range(n)], t=rng.uniform(0, .1))


def gmap(q, x):
    n = len(x)
    return [sum(q['M'][i][j]*x[j] for j in range(n)) + q['b'][i] + q['t']*math.tanh(x[i]) for i in range(n)]


def fixed_run(**kw):
    q, v, o_ = kw['q'], kw['v'], kw['o']
    xs, fs = [], []
    def f(x, *a):
        r = [a_ - b for a_, b in zip(x, gmap(q, x))]
        if o_ == 'nan' and len(xs) == 3: r[0] = float('nan')
        if o_ == 'progress' and len(xs) == q['bad']: r = [5*z + 1 for z in r]
        xs.append(list(x)); fs.append(list(r)); return r
    o = opts(kw, ('q', 'v', 'o', 'x0'))
    fn = dict(plain=N.fixed_point, aitken=N.fixed_point_aitken, gdem=N.fixed_point_gdem)[v]
    r = attempt(lambda: fn(f, list(kw['x0']), **o))
    return dict(ret=r, xs=xs, fs=fs)


def fixed(job, rng, T):
    v, n, o = job['v'], job['n'], job['o']
    q = contraction(n, rng); q['bad'] = rng.randrange(2, 6)
    kw = dict(q=q, v=v, o=o, x0=[rng.uniform(-3, 3) for _ in range(n)])
    tols(job['t'], rng, kw)
    if o == 'damped': kw['damping'] = rng.choice([.5, .9])
    if o == 'few': kw['maxiter'] = rng.choice([1, 2, 3, 4, 6])
    if o == 'progress': kw['require_progress'] = True
    if o == 'nan': kw['check_numbers'] = True
    if o == 'solved':
        x = kw['x0']
        for _ in range(300): x = gmap(q, x)
        kw['x0'] = x
    T.call('fixed', fixed_run, kw)


def root_run(**kw):
    q, m = kw['q'], kw['m']
    f = lambda x, *a: F(q, x)
    j = lambda x, *a: J(q, x)
    if m == 'homotopy': r = attempt(lambda: N.homotopy_solver(f, list(kw['x0']), j, **kw['o']))
    else: r = attempt(lambda: N.broyden2(list(kw['x0']), f if not kw['both'] else None, (lambda x, *a: (F(q, x), J(q, x))) if kw['both'] else j, jac_has_fun=kw['both'], **kw['o'])) if not kw['both'] else attempt(
        lambda: N.broyden2(list(kw['x0']), f, lambda x, *a: (F(q, x), J(q, x)), jac_has_fun=True, **kw['o']))
    return dict(ret=r, fret=F(q, r[0]) if isinstance(r, list) else [0.0])


def anderson_run(**kw):
    q = kw['q']
    if kw['v'] == 'anderson': r = attempt(lambda: N.fixed_point_anderson(lambda x, *a: gmap(q, x), list(kw['x0']), **kw['o']))
    else: r = attempt(lambda: N.fixed_point_anderson_residual(lambda x, *a: [a_ - b for a_, b in zip(x, gmap(q, x))], list(kw['x0']), **kw['o']))
    return dict(ret=r, fret=[a - b for a, b in zip(r[0], gmap(q, r[0]))] if isinstance(r, list) else [0.0])


def simplex_run(**kw):
    q = kw['q']
    xs, fs = [], []
    def f(x, *a):
        v = q['s']*math.cosh(.3*x[0] - q['c'][0])
        for i in range(len(x)):
            u = x[i] - q['c'][i] - (a[0] if a else 0.0)
            v += q['w'][i]*u*u + .1*q['w'][i]*u*(x[i - 1] if len(x) > 1 else 0.0)
        xs.append(list(x)); fs.append(v); return v
    o = opts(kw, ('q', 'x0', 'v'))
    if 'args' in o: o['args'] = tuple(o['args'])
    r = attempt(lambda: N.nelder_mead(f, list(kw['x0']), **o))
    return dict(ret=r, xs=xs, fs=fs)


def simplex(job, rng, T):
    v, n = job['v'], job['n']
    q = dict(c=[rng.uniform(-2, 2) for _ in range(n)], w=[rng.uniform(.5, 2) for _ in range(n)], s=rng.uniform(.01, .3))
    x0 = [rng.uniform(-3, 3) for _ in range(n)]
    kw = dict(q=q, x0=x0, v=v)
    if v == 'adaptive': kw['adaptive'] = True
    if v == 'zero': kw['x0'] = [0.0]*n
    lo = [x - rng.uniform(0, .5) for x in x0]; hi = [x + rng.uniform(.05, .8) for x in x0]
    if v in ('low', 'box'): kw['low'] = lo
    if v in ('high', 'box'): kw['high'] = hi
    if v == 'atbound': kw.update(low=lo, high=[x for x in x0])
    if v == 'simplex': kw['initial_simplex'] = [[x + rng.uniform(-1, 1) for x in x0] for _ in range(n + 1)]
    if v == 'args': kw['args'] = [rng.uniform(-1, 1)]
    if v == 'few': kw['maxiter'] = rng.choice([0, 1, 2, 7])
    if rng.random() < .3: kw.update(xtol=rng.choice([1e-2, 1e-6]), ftol=rng.choice([1e-2, 1e-6]))
    T.call('simplex', simplex_run, kw)


# ---- differentiation: polynomials, whose derivatives are exact
def pol(c, x, k=0):
    """k-th derivative of sum c_i x^i"""
    return sum(a*math.prod(range(i - k + 1, i + 1))*x**(i - k) for i, a in enumerate(c) if i >= k)


def deriv_run(**kw):
    xs = []
    def f(x, *a, **k): xs.append(x); return pol(kw['c'], x) + (a[0] if a else 0.0)
    return dict(ret=attempt(lambda: N.derivative(f, kw['x0'], **opts(kw, ('c', 'x0')))), xs=xs)


def diff(job, rng, T):
    v, n = job['v'], job['n']
    if v in ('derivative', 'limits'):
        order = rng.choice([k for k in (3, 5, 7, 9, 11, 13, 15, 17, 19) if k > n and (k < 10 or n < 3)])
        deg = order - 1
        c = [rng.uniform(-1, 1) for _ in range(deg + 1)]
        x = rng.uniform(-1.5, 1.5); dx = rng.choice([.01, .1, .5])
        kw = dict(c=c, x0=x, dx=dx, n=n, order=order)
        if v == 'limits':
            # a derivative of a straight line to a power does not depend on where it is taken
            kw['c'] = [0.0]*n + [rng.uniform(-1, 1)]
            if rng.random() < .5: kw['upper_limit'] = x + rng.uniform(0, 1)*dx*(order//2)
            else: kw['lower_limit'] = x - rng.uniform(0, 1)*dx*(order//2)
        size = sum(abs(a) for a in c)*3.0**deg
        T.call('derivative', deriv_run, kw, want=pol(kw['c'], x, n), tol=1e-14*size/dx**n*100)
        T.cell = None
        if v == 'derivative':
            T.call('derivative', deriv_run, dict(c=c, x0=x, n=n + 5, order=3), want='refuse', tol=0.0)
            T.call('derivative', deriv_run, dict(c=c, x0=x, n=n, order=22), want='refuse', tol=0.0)
        return
    if v == 'weights':
        # moments of the weights over points scaled onto [-1, 1]
        def moments(points, divisions):
            w, h = N.central_diff_weights(points, divisions), points//2
            return [sum(a*(k/h)**m for a, k in zip(w, range(-h, h + 1))) for m in range(points)]
        for pts in range(3, 21 if n < 3 else 13, 2):
            if pts > n:
                T.call('vector', moments, {'points': pts, 'divisions': n}, want=[math.factorial(n)/float(pts//2)**n if m == n else 0.0 for m in range(pts)], tol=2e-14*4.0**n)
                T.cell = None
        return
    if v == 'vector':
        m = n
        cs = [[rng.uniform(-1, 1) for _ in range(5)] for _ in range(m)]
        x = rng.uniform(-1, 1); k = rng.randrange(1, 5)
        T.call('vector', lambda x0, c, dx, n, order: N.derivative(lambda x: [pol(q, x) for q in c], x0, dx=dx, n=n, order=order, scalar=False), dict(x0=x, c=cs, dx=.1, n=k, order=5), want=[pol(q, x, k) for q in cs], tol=1e-11/.1**k)
        return
    # quadratic forms
    Q = [[[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)] for _ in range(n)]
    x = [rng.choice([0.0, rng.uniform(.1, 2), -rng.uniform(.1, 2)]) for _ in range(n)]
    quad = lambda M, z: sum(M[i][j]*z[i]*z[j] for i in range(n) for j in range(n)) + 3*z[0]
    grad = lambda M, z: [sum((M[i][j] + M[j][i])*z[j] for j in range(n)) + (3.0 if i == 0 else 0.0) for i in range(n)]
    if v == 'gradient':
        T.call('vector', lambda M, x0, **o: N.jacobian(lambda z: quad(M, z), x0, scalar=True, **o), dict(M=Q[0], x0=x, perturbation=1e-7), want=grad(Q[0], x), tol=2e-5)
        T.cell = None
        T.call('vector', lambda M, x0, b, **o: N.jacobian(lambda z: quad(M, z), x0, scalar=True, base=b, **o), dict(M=Q[0], x0=x, b=quad(Q[0], x), perturbation=1e-6, zero_offset=1e-6), want=grad(Q[0], x), tol=2e-5)
    elif v == 'jacobian':
        T.call('matrix', lambda Q, x0, **o: N.jacobian(lambda z: [quad(M, z) for M in Q], x0, scalar=False, **o), dict(Q=Q, x0=x, perturbation=1e-7), want=[grad(M, x) for M in Q], tol=2e-5)
        T.cell = None
        T.call('matrix', lambda Q, x0, **o: N.jacobian(lambda z: [quad(M, z) for M in Q[:1]], x0, scalar=False, **o), dict(Q=Q, x0=x, perturbation=1e-7), want=[grad(Q[0], x)], tol=2e-5)
    elif v == 'hessian':
        want = [[Q[0][i][j] + Q[0][j][i] for j in range(n)] for i in range(n)]
        T.call('matrix', lambda M, x0, **o: N.hessian(lambda z: quad(M, z), x0, scalar=True, **o), dict(M=Q[0], x0=x, perturbation=1e-3, zero_offset=1e-3), want=want, tol=1e-5)
        T.cell = None
        T.call('half', lambda M, x0, **o: N.hessian(lambda z: quad(M, z), x0, scalar=True, full=False, **o), dict(M=Q[0], x0=x, perturbation=1e-3, zero_offset=1e-3), want=want, tol=1e-5)
    else:
        want = [[[M[i][j] + M[j][i] for M in Q] for j in range(n)] for i in range(n)]
        T.call('cube', lambda Q, x0, **o: N.hessian(lambda z: [quad(M, z) for M in Q], x0, scalar=False, **o), dict(Q=Q, x0=x, perturbation=1e-3, zero_offset=1e-3), want=want, tol=1e-5)


def bound_run(**kw):
    v, lo, hi, x = kw['v'], kw['low'], kw['high'], kw['x']
    q, xs = kw['q'], []
    f = lambda z, *a: (xs.append(list(z)), F(q, z))[1]
    jv = lambda z, *a: (xs.append(list(z)), [2.0*u for u in z])[1]
    jm = lambda z, *a: (xs.append(list(z)), J(q, z))[1]
    real = [l + (h - l)/(1 + math.exp(-u)) for l, h, u in zip(lo, hi, x)]
    b = dict(bounds=list(zip(lo, hi))) if v == 'bounds' else dict(low=lo, high=hi)
    out = {}
    if v in ('f', 'bounds'):
        g, _, _ = N.translate_bound_func(f, **b); out['f'] = g(list(x)); out['raw'] = F(q, xs[0])
    elif v == 'jac':
        g, _, _ = N.translate_bound_jac(jv, **b); out.update(f=0, raw=0, j=g(list(x)), jraw=[2.0*u for u in xs[0]])
    else:
        if kw['tuple']: g, _, _ = N.translate_bound_f_jac(lambda z, *a: (f(z), J(q, z) if v == 'matrix' else [2.0*u for u in z]), True, **b)
        else: g, _, _ = N.translate_bound_f_jac(f, jm if v == 'matrix' else jv, **b)
        r = g(list(x)); out.update(f=r[0], raw=F(q, xs[0]), j=[list(u) for u in r[1]] if v == 'matrix' else list(r[1]), jraw=J(q, xs[0]) if v == 'matrix' else [2.0*u for u in xs[0]])
    out['f'], out['raw'] = (sum(out['f']), sum(out['raw'])) if isinstance(out['f'], list) else (0.0, 0.0)
    return dict(out, xs=xs)


def bound(job, rng, T):
    v, n = job['v'], job['n']
    q, _, _ = prob('exp', n, rng)
    lo = [rng.uniform(-3, 0) for _ in range(n)]; hi = [l + rng.uniform(.5, 4) for l in lo]
    z = [rng.uniform(-4, 4) for _ in range(n)]
    T.call('bfun', bound_run, dict(v=v, low=lo, high=hi, x=z, q=q, tuple=rng.random() < .5), vector=False, matrix=v == 'matrix')
    T.cell = None
    def trip(v, low, high, x):
        g = {'f': N.translate_bound_func, 'bounds': N.translate_bound_func, 'jac': N.translate_bound_jac}.get(v)
        fs = g(None, low=low, high=high) if g else N.translate_bound_f_jac(None, None, low=low, high=high)
        y = fs[1](list(x)); return [list(y), list(fs[2](list(y)))]
    T.call('binto', trip, dict(v=v, low=lo, high=hi, x=[l + (h - l)*rng.uniform(.01, .99) for l, h in zip(lo, hi)]))


def damp(job, rng, T):
    v = job['v']
    n = rng.randrange(1, 4)
    vec = lambda s=3: [rng.choice([0.0, rng.uniform(-s, s), rng.uniform(-s, s)]) for _ in range(n)]
    if v == 'basic':
        T.call('basic', N.basic_damping, dict(x=vec(), dx=vec(), damping=rng.uniform(.1, 1))); return
    if v in ('sign', 'signlist'):
        for _ in range(6):
            kw = dict(x=vec() if 'list' in v else rng.uniform(-2, 2), step=vec() if 'list' in v else rng.uniform(-4, 4))
            if rng.random() < .5: kw['damping'] = rng.uniform(.2, 1)
            if rng.random() < .5: kw['factor'] = rng.uniform(.1, .9)
            T.call('sign', N.damping_maintain_sign, kw); T.cell = None
        return
    steps = rng.randrange(0, 5)
    ls = v.endswith('list') or v == 'maxeach'
    if v.startswith('initial'):
        amt = rng.uniform(.1, .9); f = N.make_damp_initial(steps=steps, damping=amt); kind = 'damping'
    else:
        amt = [rng.uniform(.1, 2) for _ in range(n)] if v == 'maxeach' else rng.uniform(.1, 2); f = N.make_max_step_initial(amt, steps=steps); kind = 'max'
    T.event('dampnew', a=dict(steps=steps, amount=amt))
    T.cell = None
    for _ in range(7):
        kw = dict(x=vec() if ls else rng.uniform(-2, 2), step=vec() if ls else rng.uniform(-4, 4))
        T.call('damp', f, kw, again=False, kind=kind)


def osc(job, rng, T):
    a = dict(minimum_progress=rng.choice([.3, .1, .6]), both_sides=job['b'])
    if job['g']: a['good_err'] = rng.choice([.5, 2.0])
    T.event('oscnew', a=a)
    T.cell = None
    c = None
    if job['w'] == 'call': c = N.OscillationChecker(**a)
    else:
        y = []
        if rng.random() < .5: f, c = N.oscillation_checking_wrapper(lambda x: y[0], full=True, **a)
        else: f = N.oscillation_checking_wrapper(lambda x: y[0], full=False, **a)
    sp, sn = rng.uniform(1, 5), rng.uniform(1, 5)
    rp, rn = rng.choice([.5, .8, .99]), rng.choice([.5, .8, .95])
    for i in range(rng.randrange(6, 18)):
        side = (i % 2 == 0) if rng.random() < .8 else rng.random() < .5
        if rng.random() < .05: v = 0.0
        elif side: v = sp; sp *= rp*rng.uniform(.9, 1.0)
        else: v = -sn; sn *= rn*rng.uniform(.9, 1.0)
        if job['w'] == 'call':
            if rng.random() < .04:
                c.clear(); T.event('oscnew', a=a)
            T.call('osc', c.is_oscillating if rng.random() < .5 else c, dict(x=float(i), y=v), again=False)
        else:
            y[:] = [v]
            T.call('oscwrap', lambda x, y: f(x), dict(x=float(i), y=v), again=False)


def bbb(job, rng, T):
    s = 1 if job['d'] == 'up' else -1
    c = rng.uniform(-1, 1); k = rng.uniform(.5, 2)
    f = lambda x: s*math.expm1(k*(x - c))
    lo, hi = c - rng.uniform(1, 4), c + rng.uniform(1, 4)
    side = lambda pos: [c + (1 if (s > 0) == pos else -1)*rng.uniform(.01, 5) for _ in range(rng.randrange(1, 4))]
    kw = dict(low=lo, high=hi)
    if job['p'] == 'some': x = side(True); kw.update(xs_pos=x, ys_pos=[f(z) for z in x])
    if job['q'] == 'some': x = side(False); kw.update(xs_neg=x, ys_neg=[f(z) for z in x])
    if rng.random() < .4: kw.update(fa=f(lo), fb=f(hi))
    out = T._do(lambda: N.best_bounding_bounds(f=f, **kw), (), {}, 5)
    back = [f(out[0]), f(out[1])] if isinstance(out, tuple) else [0.0, 0.0]
    T.call('bbb', lambda **a: N.best_bounding_bounds(f=f, **a), kw, flow=f(lo), fhigh=f(hi), back=back)
    T.cell = None


def iface(job, rng, T):
    v, np_, jm, xnp = job['v'], job['np'], job['jm'], job['xnp']
    n = rng.randrange(1, 4)
    q = contraction(n, rng, .5)
    if v in ('newton_minimize',):
        q['t'] = 0.0
    root = [0.0]*n
    for _ in range(200): root = gmap(q, root)
    x0 = [r + rng.uniform(-1, 1) for r in root]
    def run(q, x0, v, np_, jm, xnp):
        calls = [0]
        def obj(x, *a):
            calls[0] += 1
            r = [b - a_ for a_, b in zip(x, gmap(q, x))]
            if np_:
                if not isinstance(x, np.ndarray): raise TypeError('list given')
                return np.array(r)
            if not isinstance(x, list): raise TypeError('array given')
            return r
        def jac(x, *a):
            M = [[q['M'][i][j] - (i == j) + (q['t']/math.cosh(x[i])**2 if i == j else 0.0) for j in range(n)] for i in range(n)]
            return np.array(M) if np_ else M
        scalar = v == 'newton_minimize'
        if scalar:
            base = obj
            def obj(x, *a):
                r = base(x)
                return float(sum(z*z for z in r))
        extra = dict(jacobian_perturbation=1e-4) if scalar else {}
        S = N.SolverInterface(method=v, objf=obj, jac=jac, xtol=1e-9 if not scalar else 1e-2, maxiter=300, jacobian_method='python' if scalar else jm, objf_numpy=np_, scalar_objective=scalar, **extra)
        r = attempt(lambda: S.solve(np.array(x0) if xnp else list(x0)))
        same = isinstance(r, np.ndarray) == xnp
        scipy = v in ('hybr', 'lm', 'BFGS')
        # the jacobian of a sum of squares calls the objective behind the counters
        own = S.jac_iter if (v == 'BFGS' and jm == 'analytical') else 0
        return dict(ret=list(map(float, r)) if not isinstance(r, str) else r, sametype=same or isinstance(r, str), fval=S.fval_iter, jval=S.jac_fval_count, hval=S.hess_fval_count, calls=calls[0] - own,
                    jac=S.jac_iter, usesjac=v in ('newton_system', 'newton_system_line_search', 'newton_system_line_search_progress', 'homotopy_solver', 'broyden2_python', 'newton_minimize'))
    T.call('iface', run, dict(q=q, x0=x0, v=v, np_=np_, jm=jm, xnp=xnp), root=root, tol=1e-2 if v == 'newton_minimize' else 1e-6, mayfail=v == 'fixed_point_aitken')
    T.cell = None


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    for rep in range((3 if m in ('simplex', 'diff', 'osc', 'bbb', 'damp', 'bound') else 2)*(1 if tier == 'quick' else 8)):
        if rep: T.trace()
        n = job.get('n')
        if m in ('homotopy', 'broyden'):
            q, xs, x0 = prob(job['p'], n, rng)
            o = {} if m == 'homotopy' else dict(xtol=rng.choice([1e-7, 1e-5]))
            if m == 'broyden' and job['p'] != 'linear': x0 = [x + rng.uniform(-.02, .02) for x in xs]
            tol = 1e-9 if m == 'homotopy' else o['xtol']
            T.call('solved', root_run, dict(q=q, m=m, x0=x0, o=o, both=rng.random() < .5), tol=tol*2, mayfail=m == 'homotopy')
        elif m == 'anderson':
            q = contraction(n, rng, .6)
            o = dict(xtol=1e-9) if job['v'] == 'anderson' else dict(xtol=1e-9, damping=rng.choice([.9, 1.0]), initial_iterations=rng.choice([3, 5, 8]))
            if rng.random() < .3: o['window_size'] = rng.choice([1, 2, 3])
            T.call('solved', anderson_run, dict(q=q, v=job['v'], x0=[rng.uniform(1, 4) for _ in range(n)], o=o), tol=1e-6, mayfail=True)
        else: globals()[m](job, rng, T)
