import cmath, math
import numpy as np
from fluids import numerics as N
from fluids.numerics import special as S


def call(T, op, fn, kw, **x):
    out = T.call(op, fn, kw, **x)
    T.cell = None
    return out


def vec(rng, n, s=5.0): return [rng.choice([rng.uniform(-s, s), rng.uniform(-s, s), rng.uniform(0, 1e4), float(rng.randrange(-3, 4))]) for _ in range(n)]


def space(job, rng, T):
    k, n = job['k'], job['n']
    kw = dict(start=rng.uniform(-3, 3), stop=rng.uniform(-3, 3), num=n, endpoint='open' not in k)
    if k.startswith('log'):
        kw['base'] = 10.0
        f = lambda start, stop, num, endpoint, base: N.logspace(start, stop, num, endpoint)
        if k == 'logbase': kw['base'] = rng.choice([2.0, math.e, .5]); f = lambda start, stop, num, endpoint, base: N.logspace(start, stop, num, endpoint=endpoint, base=base)
        call(T, 'logspace', f, kw)
    else:
        if rng.random() < .2: kw['start'], kw['stop'] = int(kw['start']), int(kw['stop']) + 1
        if rng.random() < .1: kw['num'] = -n
        kw['retstep'] = 'step' in k and (n != 1 or 'open' in k)
        call(T, 'linspace', lambda **a: (lambda r: list(r) if isinstance(r, tuple) else r)(N.linspace(**a)), kw)


def reduce(job, rng, T):
    k, n = job['k'], job['n']
    v = vec(rng, n)
    if k == 'normalize': v = [abs(x) + .1 for x in v]
    call(T, k, getattr(N, k), {dict(product='l', cumsum='a', mean='data', std='data', normalize='values')[k]: v})


def diffs(job, rng, T): call(T, 'diff', N.diff, dict(a=vec(rng, job['n']), n=job['k']))


def pair(rng, z, n):
    d = [x or 1.0 for x in vec(rng, n)]
    c = [x*rng.uniform(.5, 1.5) + rng.uniform(-.1, .1) for x in d]
    i = rng.randrange(n)
    if z == 'zero': d[i] = 0.0; c[i] = c[i] or 1.0
    if z == 'bothzero': d[i] = c[i] = 0.0
    if z == 'same': c = list(d)
    if z == 'far': d[i] = 1e-5*rng.choice([1, -1]); c[i] = rng.uniform(1, 9)
    if z == 'low': c = [x*rng.uniform(-.5, .9) for x in d]
    if z == 'high': c = [x*rng.uniform(1.1, 3) for x in d]
    return d, c


def measure(job, rng, T):
    d, c = pair(rng, job['z'], job['n'])
    kw = dict(f=job['f'], data=d, calc=c)
    if job['f'] == 'max_abs_rel_error' and rng.random() < .5: kw['max_val'] = rng.choice([.3, 10.0, 1e9])
    call(T, 'measure', lambda f, **k: getattr(N, f)(**k), kw)


def ratios(job, rng, T):
    d, c = pair(rng, job['z'], rng.randrange(1, 7))
    call(T, 'ratios', lambda **k: list(N.min_max_ratios(**k)), dict(actual=d, calculated=c))


def outlier(job, rng, T):
    z = job['z']
    v = [rng.gauss(3, 1) for _ in range(rng.randrange(12, 30))]
    if z == 'one': v[rng.randrange(len(v))] = rng.choice([-1, 1])*rng.uniform(30, 90)
    kw = dict(data=v)
    if z == 'cut': kw['cutoff'] = rng.choice([1, 1.5, 2])
    call(T, 'outlier', N.detect_outlier_normal, kw)


def nest(rng, d): return rng.uniform(-5, 5) if d == 0 else [nest(rng, d - 1) for _ in range(rng.randrange(1, 4))]


def spots(x, p=()): return [p] if not isinstance(x, list) else [q for i, v in enumerate(x) for q in spots(v, p + (i,))]


def put(x, p, v):
    if not p: return v
    x = list(x); x[p[0]] = put(x[p[0]], p[1:], v); return x


def at(x, p):
    for i in p: x = x[i]
    return x


def close(job, rng, T):
    d, w = job['d'], job['w']
    a = nest(rng, d)
    rt, atol = rng.choice([1e-7, 1e-3, 1e-12]), rng.choice([0.0, 0.0, 1e-6])
    def jig(x): return [jig(v) for v in x] if isinstance(x, list) else x*(1 + rng.uniform(-.9, .9)*rt)
    b = jig(a)
    ps = spots(a); p = ps[-1] if w == 'last' else rng.choice(ps)
    v = at(a, p)
    if w == 'same': b = a
    if w in ('far', 'last'): b = put(b, p, v + rng.choice([-1, 1])*(rt*abs(v)*rng.choice([1.3, 2.5, 100]) + atol*rng.choice([1.5, 3]) + 1e-300))
    if w == 'abs': atol = 1e-3; a = put(a, p, 0.0); b = put(b, p, rng.choice([-1, 1])*atol*rng.choice([.5, .99, 1.01, 2]))
    if w == 'nan': a = put(a, p, math.nan); b = put(b, p, float('nan'))
    if w == 'onenan': b = put(b, p, math.nan)
    if w == 'inf': a = put(a, p, math.inf); b = put(b, p, rng.choice([math.inf, -math.inf, 1e300]))
    if w == 'none': b = put(b, p, None)
    if w == 'shape' and d: q = p[:-1]; b = put(b, q, at(b, q) + [1.0])
    if w == 'deeper': a = put(a, p, [1.0, 2.0]); b = put(b, p, [1.0, 2.0] if rng.random() < .3 and d == 0 else [1.5, 2.5])
    f = [N.assert_close, N.assert_close1d, N.assert_close2d, N.assert_close3d, N.assert_close4d][d]
    def g(a, b, rtol, atol):
        try: r = f(a, b, rtol=rtol, atol=atol)
        except Exception as ex: return ['refuses', type(ex).__name__]
        return ['accepts', 'None']
    call(T, 'close', g, dict(a=a, b=b, rtol=rt, atol=atol))
    if d == 0 and w in ('same', 'close', 'far', 'abs', 'nan', 'onenan', 'inf'): call(T, 'isclose', N.isclose, dict(a=a, b=b, rel_tol=rt, abs_tol=atol))


def zeros(job, rng, T):
    d, t = job['d'], job['t']
    shape = tuple(rng.randrange(1, 4) for _ in range(d)) if d else rng.randrange(0, 5)
    if d == 1 and rng.random() < .3: shape = (0,)
    dt = dict(float=float, int=int, other=rng.choice([str, complex, 'float64']))[t]
    v = rng.choice([0.0, 2.5, -3.0]); use = rng.random() < .5
    if not use: v = 0.0
    x = 0.0
    fill = int(v) if t == 'int' else v
    def build(s): return [build(s[1:]) if len(s) > 1 else fill for _ in range(s[0])]
    want = build(shape if d else (shape,)) if d < 5 else []
    def f(shape, v, use):
        r = N.full(tuple(shape) if isinstance(shape, list) else shape, v, dt) if use else N.zeros(tuple(shape) if isinstance(shape, list) else shape, dt)
        import copy
        keep = copy.deepcopy(r)
        # writing to one place must not show anywhere else
        ok = True
        for p in spots(keep):
            if p:
                q = r
                for i in p[:-1]: q = q[i]
                q[p[-1]] = 77
                ok = ok and sum(at(r, u) == 77 for u in spots(r)) == 1
                q[p[-1]] = at(keep, p)
        kind = all(type(at(keep, p)) is dt for p in spots(keep) if p)
        return [keep, ok and kind]
    call(T, 'zeros', f, dict(shape=shape, v=v, use=use), bad=t == 'other' or d == 5, want=want)


def polylog(job, rng, T):
    z = job['z']
    x = dict(low=rng.uniform(1e-3, .7), mid=rng.uniform(.7, .99), high=rng.uniform(.99, .99999), edge=rng.choice([.7, .99, .99999, math.nextafter(.7, 1), math.nextafter(.99, 1), 1.0]), out=rng.choice([-1e-9, 1 + 1e-9, 2.0, -3.0]))[z]
    call(T, 'polylog', N.polylog2, dict(x=x))


def lambert(job, rng, T):
    k, z = job['k'], job['z']
    y = rng.uniform(-.367, -1e-3) if k == -1 or z == 'negative' else rng.uniform(0, 3) if z == 'small' else 10**rng.uniform(1, 250)
    def f(y, k):
        r = N.py_lambertw(y, k) if k else N.py_lambertw(y)
        return [r.real, r.imag]
    if k == 0 and z == 'big': y = 10**rng.uniform(0, 3)
    call(T, 'lambert', f, dict(y=y, k=k))


def trunc(job, rng, T):
    f, z = job['f'], job['z']
    n = rng.randrange(1, 6)
    if f.startswith('exp'):
        def pick(): return rng.uniform(-50, 50) if z == 'plain' else rng.choice([709.5, 709.7827, 0.0, -740.0]) if z == 'edge' else rng.choice([709.79, 1e3, 1e300, rng.uniform(-2, 2)])
        kw = dict(x=[pick() for _ in range(n)], trunc=rng.choice([1.7976931348622732e+308, 5.0]))
        if f == 'exp': g = lambda x, trunc: [N.trunc_exp(v, trunc) if trunc == 5.0 else N.trunc_exp(v) for v in x]
        else: g = lambda x, trunc: N.trunc_exp_numpy(np.array(x), trunc, **(dict(out=np.zeros(len(x))) if f.endswith('out') else {})).tolist()
        call(T, 'truncexp', g, kw)
    else:
        def pick(): return 10**rng.uniform(-50, 50) if z == 'plain' else rng.choice([1.0, 5e-324, 1e308, 0.0]) if z == 'edge' else rng.choice([0.0, 2.0, 0.0, -1.0 if rng.random() < .3 else 1.0])
        kw = dict(x=[pick() for _ in range(n)], trunc=rng.choice([-744.4400719213812, -5.0]))
        if f == 'log': g = lambda x, trunc: [N.trunc_log(v, trunc) if trunc == -5.0 else N.trunc_log(v) for v in x]
        else: g = lambda x, trunc: N.trunc_log_numpy(np.array(x), trunc, **(dict(out=np.zeros(len(x))) if f.endswith('out') else {})).tolist()
        call(T, 'trunclog', g, kw)


def count(job, rng, T):
    f = getattr(S, job['f'])
    if 'fact' in job['f']:
        for n in (-1, 0, 1, 2, rng.randrange(3, 19)): call(T, 'factorial', lambda n: float(f(n)), dict(n=n))
    else:
        for n, k in ((0, 0), (5, 6), (5, 0), (5, 5)) + tuple((rng.randrange(0, 40), rng.randrange(0, 40)) for _ in range(5)): call(T, 'comb', lambda n, k: float(f(n, k)), dict(n=n, k=k))
        if job['f'] == 'py_comb': call(T, 'comb', lambda n, k: float(f(n, k)), dict(n=5, k=-1))


def hypot(job, rng, T):
    z = job['z']
    s = dict(plain=1.0, big=1e200, tiny=1e-200, zero=1.0)[z]
    kw = dict(x=rng.uniform(-3, 3)*s, y=rng.uniform(-3, 3)*s)
    if z == 'zero': kw[rng.choice('xy')] = 0.0
    if z == 'zero' and rng.random() < .3: kw = dict(x=0.0, y=0.0)
    if z in ('plain', 'zero'): call(T, 'hypot', S.py_hypot, kw)
    else:
        # squares of such sides overflow, so the sides are scaled back exactly
        k = 2.0**-664 if z == 'big' else 2.0**664
        call(T, 'hypot', lambda x, y: S.py_hypot(x/k, y/k)*k, dict(x=kw['x']*k, y=kw['y']*k))


def cplx(job, rng, T):
    f, z = job['f'], job['z']
    u, v = rng.uniform(.05, 3), rng.uniform(.05, 3)
    w = dict(q1=(u, v), q2=(-u, v), q3=(-u, -v), q4=(u, -v), real=(rng.uniform(-.95, .95), 0.0), imag=(0.0, rng.uniform(-.95, .95)), large=(rng.choice([-1, 1])*10**rng.uniform(1, 3), rng.choice([-1, 1])*10**rng.uniform(1, 3)))[z]
    kind = f.lstrip('c') if f.startswith('ca') else f
    g = getattr(S, 'py_c' + f) if not f.startswith('c') else getattr(N, f)
    def run(re, im):
        r = g(complex(re, im)); b = getattr(cmath, kind)(complex(re, im))
        return [[r.real, r.imag], [b.real, b.imag]]
    call(T, 'complex', run, dict(re=w[0], im=w[1]), kind=kind, z=list(w), small=False)


def elem(job, rng, T):
    if job['f'] == 'sincos': call(T, 'sincos', lambda x: list(N.sincos(x)), dict(x=rng.choice([0.0, rng.uniform(-9, 9), rng.uniform(-100, 100)])))
    else: call(T, 'cbrt', lambda x: N.cbrt(x), dict(x=10**rng.uniform(-9, 9)))


def memo(job, rng, T):
    n = [0]
    salt = rng.uniform(-1, 1)
    def base(x, info=None):
        n[0] += 1
        if info is not None: info[:] = [x + salt, salt]
        return x*x + salt
    T.event('memonew', a={})
    T.cell = None
    r = N.caching_decorator(base, full=True) if job['f'] else N.caching_decorator(base)
    g = r[0] if job['f'] else r
    xs = [rng.uniform(-1, 1) for _ in range(3)]
    for _ in range(9):
        x = rng.choice(xs)
        def ask(x, info):
            if info:
                L = []
                v = g(x, info=L)
                return [v, list(L), n[0]]
            return [g(x), [], n[0]]
        T.call('memo', ask, dict(x=x, info=job['i']), again=False, fresh=[x*x + salt, [x + salt, salt]])


def vecs(job, rng, T):
    n = rng.randrange(1, 5)
    f = job['f']
    if f == 'residual':
        call(T, 'negated', lambda x: N.fixed_point_to_residual(lambda z, *a: list(z))(list(x)), dict(x=vec(rng, n)))
        call(T, 'negated', lambda x: N.residual_to_fixed_point(lambda z, *a: list(z))(list(x)), dict(x=vec(rng, n)))
        return
    lo = vec(rng, n); hi = [v + rng.uniform(0, 3) for v in lo]
    kw = dict(x=[rng.choice([l - 1, h + 1, (l + h)/2, l, h]) for l, h in zip(lo, hi)], low=lo, high=hi)
    if f == 'clipnone': kw[rng.choice(['low', 'high'])] = None
    call(T, 'clip', lambda x, low, high: N.bounds_clip_naive(list(x), low, high), kw)


def run(job, rng, T, tier):
    T.trace(job['cell'])
    for r in range(4 if tier == 'quick' else 30):
        if r: T.trace()
        globals()['vecs' if job['m'] == 'vec' else job['m']](job, rng, T)
