import math
import numpy as np
from fluids import numerics as N


def call(T, op, fn, kw, **x):
    out = T.call(op, fn, kw, **x)
    T.cell = None
    return out


def grid(rng, n, lo=None):
    x = rng.uniform(-5, 5) if lo is None else lo
    out = [x]
    for _ in range(n - 1):
        x += rng.choice([1.0, rng.uniform(1e-3, 1), rng.uniform(.5, 3)]); out.append(x)
    return out


def search(job, rng, T):
    n, k = job['n'], job['k']
    arr = grid(rng, n)
    if k == 'tie': arr = sorted(rng.choice(arr) for _ in range(n))
    i = rng.randrange(n)
    key = dict(between=(arr[i] + arr[min(i + 1, n - 1)])/2, tie=arr[i], below=arr[0] - rng.uniform(0.01, 3), above=arr[-1] + rng.uniform(1e-9, 3), node=rng.choice([arr[i], arr[0], arr[-1]]))[k]
    kw = dict(key=key, arr=arr)
    if n > 2 and rng.random() < .3: kw['size'] = rng.randrange(1, n)
    call(T, 'search', N.binary_search, kw)


def interp(job, rng, T):
    n, k, o = job['n'], job['k'], job['o']
    dx = grid(rng, n); dy = [rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(0, 1e5)]) for _ in range(n)]
    i = rng.randrange(n - 1) if n > 1 else 0
    x = dict(between=rng.uniform(dx[i], dx[min(i + 1, n - 1)]), below=dx[0] - rng.choice([rng.uniform(0, 5), 1e-3]), above=dx[-1] + rng.choice([rng.uniform(0, 5), 1e-3]), node=dx[rng.randrange(n)], last=dx[-1])[k]
    kw = dict(x=x, dx=dx, dy=dy)
    if o in ('extra', 'both'): kw['extrapolate'] = True
    if o in ('ends', 'both'):
        w = rng.choice(['l', 'r', 'lr'])
        if 'l' in w: kw['left'] = rng.uniform(-9, 9)
        if 'r' in w: kw['right'] = rng.choice([0.0, rng.uniform(-9, 9)])
    if o == 'array': call(T, 'interp', lambda x, dx, dy: float(N.interp(x, np.array(dx), np.array(dy))), kw)
    else: call(T, 'interp', N.interp, kw)


def axis(rng, s, w):
    v = grid(rng, s)
    i = rng.randrange(s - 1)
    return v, dict(node=rng.choice(v), below=v[0] - rng.uniform(.01, 3), above=v[-1] + rng.uniform(.01, 3), first=v[0], last=v[-1]).get(w, rng.uniform(v[i], v[i + 1]))


def two(job, rng, T):
    s = job['s']
    xs, x = axis(rng, s, job['kx']); ys, y = axis(rng, s + rng.randrange(2), job['ky'])
    vals = [[rng.uniform(-10, 10) for _ in xs] for _ in ys]
    call(T, 'two', N.interp2d_linear, dict(x=x, y=y, xs=xs, ys=ys, vals=vals))
    def surf(x, y, xs, ys, z):
        t = N.tck_interp2d_linear(xs, ys, z)
        return [float(N.py_bisplev(x, y, t)), float(N.bisplev(x, y, t))]
    call(T, 'tck2', surf, dict(x=x, y=y, xs=xs, ys=ys, z=vals))
    call(T, 'badk', lambda **k: N.tck_interp2d_linear(**k), dict(x=xs, y=ys, z=vals, **rng.choice([dict(kx=2), dict(ky=3), dict(kx=3, ky=3)])))


def knots(rng, k, n=None):
    inner = grid(rng, rng.randrange(1, 6) if n is None else n)
    if k > 1 and rng.random() < .3: inner = sorted(inner + [rng.choice(inner[1:-1] or inner[:1])]) if len(inner) > 2 else inner
    lo, hi = inner[0] - rng.uniform(.3, 1), inner[-1] + rng.uniform(.3, 1)
    return [lo]*(k + 1) + inner + [hi]*(k + 1)


def place(rng, t, k, w):
    lo, hi = t[k], t[-k - 1]
    return dict(knot=rng.choice(t[k:len(t) - k]), below=lo - rng.uniform(.01, .5), above=hi + rng.uniform(.01, .5), end=rng.choice([lo, hi]), out=rng.choice([lo - 1.0, hi + 1.0])).get(w, rng.uniform(lo, hi))


def splev(job, rng, T):
    k, ext, w = job['k'], job['ext'], job['w']
    t = knots(rng, k)
    c = [rng.uniform(-3, 3) for _ in range(len(t) - k - 1)]
    x = place(rng, t, k, w)
    span = min([b - a for a, b in zip(t, t[1:]) if b > a])
    amp = (2 + 2.0/span)**k
    n = len(t)
    def py(x, ext, t, c, k): return float(N.py_splev(x, (t, c, k), ext=ext) if k % 2 else N.py_splev(x, None, ext=ext, t=t, c=c, k=k))
    call(T, 'splev', py, dict(x=x, ext=ext, t=t, c=c, k=k), amp=amp)
    if k: call(T, 'splev', lambda x, ext, t, c, k: float(N.splev(x, N.implementation_optimize_tck((t, c + [0.0]*(k + 1), k)), ext=ext)), dict(x=x, ext=ext, t=t, c=c, k=k), amp=amp)


def long(job, rng, T):
    for k, n in ((1, 300), (3, 1500)):
        t = knots(rng, k, n)
        c = [rng.uniform(-3, 3) for _ in range(len(t) - k - 1)]
        call(T, 'splev', lambda x, ext, t, c, k: float(N.py_splev(x, (t, c, k), ext=ext)), dict(x=rng.uniform(t[-60], t[-k - 1]), ext=0, t=t, c=c, k=k), amp=1.0)


def bisplev(job, rng, T):
    kx, ky, w = job['kx'], job['ky'], job['w']
    tx, ty = knots(rng, kx), knots(rng, ky)
    c = [rng.uniform(-3, 3) for _ in range((len(tx) - kx - 1)*(len(ty) - ky - 1))]
    wx, wy = (w, rng.choice([w, 'in'])) if rng.random() < .5 else (rng.choice([w, 'in']), w)
    def f(x, y, tx, ty, c, kx, ky):
        raw = (tx, ty, c, kx, ky)
        o = [float(N.py_bisplev(x, y, raw)), float(N.bisplev(x, y, N.implementation_optimize_tck(raw)))]
        return o
    call(T, 'bisplev', f, dict(x=place(rng, tx, kx, wx), y=place(rng, ty, ky, wy), tx=tx, ty=ty, c=c, kx=kx, ky=ky))


def plain(v): return v.tolist() if isinstance(v, np.ndarray) else v


def tck(job, rng, T):
    w = job['w']
    v = lambda: [rng.uniform(-1, 1) for _ in range(rng.randrange(3, 7))]
    kw = dict(tck=[v(), v(), 3] if w == 'three' else [v(), v(), v(), 2, 3] if w == 'five' else [v(), v(), 3, 3], force=rng.random() < .5)
    def f(tck, force):
        r = N.implementation_optimize_tck(tck, force_numpy=force)
        return [all(isinstance(u, np.ndarray) for u, s in zip(r, tck) if isinstance(s, list)), [plain(u) for u in r]]
    call(T, 'tck', f, kw)


def trap(job, rng, T):
    w = job['w']
    n = {'one': 1, 'none': 0}.get(w, rng.randrange(2, 9))
    y = [rng.uniform(-3, 3) for _ in range(n)]
    kw = dict(y=y)
    if w in ('x', 'one', 'none'): kw['x'] = grid(rng, max(n, 1))[:n]
    if w == 'dx': kw['dx'] = rng.uniform(.01, 3)
    if w == 'wrong': kw['x'] = grid(rng, n + 1)
    call(T, 'trap', N.cumulative_trapezoid, kw, want='refuse' if w == 'wrong' else 'sums')


def fun(f, c):
    if f in ('poly', 'args'): return lambda x, *a: math.fsum(v*x**(len(c) - 1 - i) for i, v in enumerate(c)) if not a else math.fsum(v*x**(len(a) - 1 - i) for i, v in enumerate(a))
    if f == 'exp': return lambda x: math.exp(c[0]*x)
    if f == 'peak': return lambda x: 1/(1 + 25.0*x*x)
    if f == 'kink': return lambda x: abs(x - c[0])
    if f == 'step': return lambda x: 1.0 if x > c[0] else 0.0
    return lambda x: 0.0


def limits(job, rng):
    a = rng.uniform(-2, 0); b = rng.uniform(.1, 2)
    if rng.random() < .1: b = a
    return (b, a) if job.get('d') == 'down' else (a, b)


def adaptive_run(**kw):
    xs, fs = [], []
    g = fun(kw['f'], kw['c'])
    def f(x, *a):
        v = g(x, *a); xs.append(x); fs.append(v); return v
    o = {k: v for k, v in kw.items() if k not in ('f', 'c', 'a', 'b')}
    if kw['f'] == 'args': o['args'] = tuple(kw['c'])
    return dict(ret=list(N.quad_adaptive(f, kw['a'], kw['b'], **o)), xs=xs, fs=fs)


def adaptive(job, rng, T):
    f = job['f']
    a, b = limits(job, rng)
    c = [rng.uniform(-2, 2) for _ in range(rng.choice([1, 3, 6, 25]))] if f in ('poly', 'args') else [rng.choice([-1, 1])*rng.uniform(.3, 3)] if f == 'exp' else [rng.uniform(min(a, b), max(a, b))]
    kw = dict(f=f, c=c, a=a, b=b)
    if job['t'] == 'loose': kw.update(epsrel=rng.choice([1e-2, 1e-4]), epsabs=rng.choice([1e-2, 1e-5]))
    if job['t'] == 'tight': kw.update(epsrel=1e-11, epsabs=1e-12)
    g = fun('poly' if f == 'args' else f, c)
    big = 3.0*max([abs(g(a + (b - a)*i/50)) for i in range(51)]) + 1
    if f in ('poly', 'args'): big = 4*sum(abs(v)*2.0**(len(c) - 1 - i) for i, v in enumerate(c))
    call(T, 'adaptive', adaptive_run, kw, big=big)


def rule(job, rng, T):
    a, b = limits(job, rng)
    c = [rng.uniform(-2, 2) for _ in range(job['n'] + 1)]
    big = 4*sum(abs(v)*2.0**(len(c) - 1 - i) for i, v in enumerate(c))
    call(T, 'rule', lambda c, a, b: list(map(float, N.fixed_quad_Gauss_Kronrod(fun('poly', c), a, b, N.kronrod_points[10], N.kronrod_weights[10], N.legendre_weights[10], ()))), dict(c=c, a=a, b=b), big=big)


def lazy(job, rng, T):
    f = job['f']
    a, b = limits(job, rng)
    c = [rng.uniform(-2, 2) for _ in range(4)] if f == 'poly' else [rng.uniform(.3, 2)]
    q = dict(lazy=N.lazy_quad, quad=N.quad)[job['g']]
    call(T, 'lazy', lambda f, c, a, b: list(q(fun(f, c), a, b))[:2], dict(f=f, c=c, a=a, b=b), big=10.0*len(c)*2**3*2)


def many(job, rng, T):
    w, slant = job['w'], job['g'] == 'slant'
    a = rng.uniform(-1, 0); b = rng.uniform(.5, 1.5)
    sl = lambda: rng.uniform(-.3, .3) if slant else 0.0
    lo, hi = [sl(), rng.uniform(-1, 0)], [sl(), rng.uniform(.5, 1)]
    c = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
    g = lambda c, x, y: sum(v*x**i*y**j for i, r in enumerate(c) for j, v in enumerate(r))
    kw = dict(c=c, a=a, b=b, lo=lo, hi=hi)
    if w == 'dbl': f = lambda c, a, b, lo, hi: list(N.dblquad(lambda x, y: g(c, x, y), a, b, lambda y: lo[0]*y + lo[1], lambda y: hi[0]*y + hi[1], epsrel=1e-9, epsabs=1e-10))
    elif w == 'dblargs': f = lambda c, a, b, lo, hi: list(N.dblquad(lambda x, y, p, q: p*q*g(c, x, y), a, b, lambda y, p, q: lo[0]*y + lo[1], lambda y, p, q: hi[0]*y + hi[1], args=(2.0, .5), epsrel=1e-9, epsabs=1e-10))
    elif w == 'n2': f = lambda c, a, b, lo, hi: list(N.nquad(lambda x, y: g(c, x, y), [lambda y: (lo[0]*y + lo[1], hi[0]*y + hi[1]), lambda: (a, b)]))
    elif w == 'n2args': f = lambda c, a, b, lo, hi: list(N.nquad(lambda x, y, p, q: p*q*g(c, x, y), [lambda y, p, q: (lo[0]*y + lo[1], hi[0]*y + hi[1]), lambda p, q: (a, b)], args=(4.0, .25)))
    elif w == 'n1':
        f = lambda c, a, b, lo, hi: list(N.nquad(lambda y: (hi[1] - lo[1] + (hi[0] - lo[0])*y)*c[0][0], [lambda: (a, b)]))
        kw['c'] = [[c[0][0]]]
    else:
        r = lambda: [rng.uniform(-1, 0), rng.uniform(.3, 1)]
        kw = dict(terms=[[rng.uniform(-1, 1), rng.randrange(3), rng.randrange(3), rng.randrange(3)] for _ in range(3)], x=r(), y=r(), z=r())
        call(T, 'box3', lambda terms, x, y, z: list(N.nquad(lambda u, v, w: sum(q*u**i*v**j*w**k for q, i, j, k in terms), [lambda v, w: tuple(x), lambda w: tuple(y), lambda: tuple(z)])), kw, big=50.0)
        return
    call(T, 'many', f, kw, big=50.0)


def run(job, rng, T, tier):
    T.trace(job['cell'])
    m = job['m']
    reps = {'long': 1, 'adaptive': 2, 'splev': 3}.get(m, 4)*(1 if tier == 'quick' or m == 'long' else 6)
    for r in range(reps):
        if r: T.trace()
        globals()[m](job, rng, T)
