import math
import warnings
import numpy as np
from numpy.polynomial import chebyshev as NC
from fluids.optional import pychebfun as PC
from fluids.numerics import horner

Chebfun, chebfun = PC.Chebfun, PC.chebfun
FR = (0.0, .13, .37, .5, .71, .94, 1.0)


def fl(x): return [float(v) for v in np.asarray(x).ravel()]


def at(h):
    a, b = (float(v) for v in h.domain())
    return [a + (b - a)*t if t < 1 else b for t in FR]


def seen(h):
    """What a user can see of a function object."""
    x = at(h)
    return {'c': fl(h.coefficients()), 'dom': fl(h.domain()), 'x': x, 'v': fl([h(z) for z in x]), 'va': fl(h(np.array(x))), 'sum': float(h.sum()), 'n': int(h.size()),
            'vals': fl(h.values())}


def quiet(fn):
    def g(*a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, **k)
    return g


def domain(rng, d):
    if d == 'any': d = rng.choice(['zero', 'plain', 'offset', 'wide'])
    if d == 'unit': return [-1.0, 1.0]
    if d == 'zero': return [0.0, rng.uniform(.5, 4)]
    if d == 'plain': return [rng.uniform(-3, -.5), rng.uniform(-.2, 3)]
    if d == 'offset': return [rng.uniform(5, 10), rng.uniform(11, 13)]
    return [rng.uniform(-50, -10), rng.uniform(20, 60)]


def series(rng, n, s=1.0):
    """n coefficients, the last not small."""
    c = [rng.uniform(.1, s)*rng.choice([1, -1])/(1 + .5*i) for i in range(n)]
    c[-1] = rng.uniform(.2, s)*rng.choice([1, -1])
    return c


def func(c, dom):
    """A vectorized function with the given series."""
    a, b = dom
    return lambda x: NC.chebval((2.0*np.asarray(x) - a - b)/(b - a), c)


def mk(c, dom): return chebfun(chebcoeff=np.array(c), domain=dom)


def apply(k, f, g, s, dom2):
    if k == 'add': return f + g, g
    if k == 'sub': return f - g, g
    if k == 'mul': return f*g, g
    if k == 'neg': return -f, g
    if k == 'addk': return f + s, g
    if k == 'raddk': return s + f, g
    if k == 'subk': return f - s, g
    if k == 'rsubk': return s - f, g
    if k == 'mulk': return f*s, g
    if k == 'rmulk': return s*f, g
    if k == 'divk': return f/s, g
    if k == 'pow2': return f**2, g
    if k == 'pow3': return f**3, g
    if k == 'swap': return g, f
    if k == 'diff': return f.differentiate(), g
    if k == 'diff2': return f.differentiate(2), g
    if k == 'int': return f.integrate(), g
    if k == 'restrict': return f.restrict(dom2), g.restrict(dom2)


def walk(job, rng, T):
    dom = domain(rng, job['d'])
    cf, cg = series(rng, rng.randrange(1, 6)), series(rng, rng.randrange(1, 4))
    box = []
    def start(lo, hi, cf, cg):
        box[:] = [mk(cf, [lo, hi]), mk(cg, [lo, hi])]
        return [seen(x) for x in box]
    T.call('init', quiet(start), dict(lo=dom[0], hi=dom[1], cf=cf, cg=cg))
    T.cell = None
    if len(box) < 2: return
    for k in job['ops']:
        f, g = box
        s = rng.uniform(.3, 3)*rng.choice([1, -1])
        lo, hi = (float(v) for v in f.domain())
        p, q = rng.choice([(0.0, rng.uniform(.4, .9)), (rng.uniform(.1, .6), 1.0), (rng.uniform(.05, .4), rng.uniform(.5, .95)), (0.0, 1.0)])
        d2 = [lo + p*(hi - lo), hi if q == 1 else lo + q*(hi - lo)]
        new = []
        def step(s, lo2, hi2, f=f, g=g, k=k, new=new):
            r = apply(k, f, g, s, [lo2, hi2])
            new[:] = r
            return [seen(x) for x in r]
        T.call('step', quiet(step), dict(s=s, lo2=d2[0], hi2=d2[1]), k=k)
        if len(new) < 2: return
        box = list(new)
        if sum(abs(x) for x in fl(box[0].coefficients())) > 1e4: return


def make(job, rng, T):
    k, n = job['k'], job['n']
    dom = domain(rng, job['d'])
    c = series(rng, n)
    v = [rng.uniform(-1, 1) for _ in range(n)]
    Nn = rng.choice([8, 15, 16, 20])
    fn = {'scalar': lambda lo, hi, c, v: chebfun(v[0], [lo, hi]),
          'values': lambda lo, hi, c, v: chebfun(v, [lo, hi]),
          'array': lambda lo, hi, c, v: Chebfun.from_data(np.array(v), [lo, hi]),
          'coeffs': lambda lo, hi, c, v: chebfun(chebcoeff=c, domain=[lo, hi]),
          'unpruned': lambda lo, hi, c, v: Chebfun.from_coeff(np.array(c + [0.0, 0.0]), domain=[lo, hi], prune=False),
          'function': lambda lo, hi, c, v: chebfun(func(c, [lo, hi]), [lo, hi]),
          'functionN': lambda lo, hi, c, v: chebfun(func(c, [lo, hi]), [lo, hi], N=Nn),
          'build': lambda lo, hi, c, v: PC.build_pychebfun(lambda x: float(func(c, [lo, hi])(x)), [lo, hi], N=15),
          'copy': lambda lo, hi, c, v: chebfun(mk(c, [lo, hi])),
          'identity': lambda lo, hi, c, v: Chebfun.identity([lo, hi])}[k]
    T.call('make', quiet(lambda **kw: seen(fn(**kw))), dict(lo=dom[0], hi=dom[1], c=c, v=v), k=k)


RANGE = {'log': (1, 3), 'sqrt': (1, 3), 'log2': (1, 3), 'log1p': (-.4, 2), 'tan': (-1, 1), 'arcsin': (-.6, .6), 'arccos': (-.6, .6), 'arctanh': (-.6, .6), 'arccosh': (1.6, 4),
         'fabs': (.3, 2), 'abs': (.3, 2), 'pow': (.5, 2), 'rdivk': (.6, 2)}


def inrange(rng, lo, hi, n=3):
    """A series whose values stay within lo, hi."""
    c = series(rng, n)
    c[0] = 0.0
    w = sum(abs(x) for x in c)
    h = .5*(hi - lo)
    c = [x*h/w*.95 for x in c]
    c[0] = .5*(lo + hi)
    return c


def fn(job, rng, T):
    k = job['k']
    dom = domain(rng, job['d'])
    c = inrange(rng, *RANGE.get(k, (-1.2, 1.2)), n=rng.randrange(2, 4))
    if k in ('fabs', 'abs') and rng.random() < .5: c = [-x for x in c]
    cg = inrange(rng, .6, 2.0)
    via = rng.random() < .5
    s = rng.choice([.5, 1.5, -1.0, -.7]) if k == 'pow' else rng.uniform(.5, 2)
    def run(lo, hi, c, cg, s):
        f, g = mk(c, [lo, hi]), mk(cg, [lo, hi])
        if k == 'div': h = f/g
        elif k == 'rdivk': h = s/f
        elif k == 'pow': h = f**s
        elif k == 'abs': h = abs(f)
        else: h = getattr(np, k)(f) if via else getattr(f, k)()
        x = at(f)
        return {'f': fl(f(np.array(x))), 'g': fl(g(np.array(x))), 'v': fl(h(np.array(x))), 'x': x, 'dom': fl(h.domain()), 'c': fl(f.coefficients())}
    T.call('fn', quiet(run), dict(lo=dom[0], hi=dom[1], c=c, cg=cg, s=s), k=k)


def spread(rng, n, lo, hi, gap):
    while 1:
        r = [rng.uniform(lo, hi) for _ in range(n)]
        if all(abs(a - b) > gap for i, a in enumerate(r) for b in r[:i]): return r


def rooted(job, rng):
    n, k = job['n'], job['k']
    ins, rest = [], []
    if k == 'inside': ins = spread(rng, n, -.97, .97, .12)
    elif k == 'outside': rest = [rng.choice([1, -1])*rng.uniform(1.08, 2) for _ in range(n)]
    elif k == 'mixed': ins = spread(rng, (n + 1)//2, -.97, .97, .12); rest = [rng.choice([1, -1])*rng.uniform(1.08, 2) for _ in range(n//2)]
    elif k == 'complex': ins = spread(rng, max(1, n - 2), -.97, .97, .12)
    p = np.array([rng.uniform(.5, 2)*rng.choice([1, -1])])
    for r in ins + rest: p = np.convolve(p, [1.0, -r])
    if k in ('complex', 'none'):
        z = complex(rng.uniform(-1, 1), rng.uniform(.3, 1))
        if n > 1 or k == 'none': p = np.convolve(p, [1.0, -2*z.real, abs(z)**2])
    if k == 'none' and n == 1: p = p[-1:]
    c = [float(x) for x in NC.poly2cheb(p[::-1])]
    return c, sorted(ins)


def roots(job, rng, T):
    dom = domain(rng, job['d'])
    c, ins = rooted(job, rng)
    T.call('roots', quiet(lambda lo, hi, c: sorted(fl(mk(c, [lo, hi]).roots()))), dict(lo=dom[0], hi=dom[1], c=c), u=ins)


def many(job, rng, T):
    k = job['k']
    dom = domain(rng, job['d'])
    w = dom[1] - dom[0]
    if k == 'sine':
        om = rng.uniform(110, 420)/w
        while 1:
            ph = rng.uniform(0, 6)
            if all(.05 < ((om*x + ph)/math.pi) % 1 < .95 for x in dom): break
        T.call('sine', quiet(lambda lo, hi, om, ph: sorted(fl(chebfun(lambda x: np.sin(om*x + ph), [lo, hi]).roots()))), dict(lo=dom[0], hi=dom[1], om=om, ph=ph), timeout=60)
        return
    if k == 'resolve':   # bumps too narrow for the first grids
        cs = spread(rng, 2, -.8, .8, .4)
        s = rng.choice([60.0, 250.0, 1e3, 3e4])
        pts = set()
        def run(lo, hi, cs, s, find, N, N_max):
            pts.clear()
            def f(x):
                u = (2*x - lo - hi)/(hi - lo)
                pts.add(x)
                if len(pts) > 20000: raise RuntimeError('endless')
                return sum(1/(1 + s*(u - z)**2) for z in cs)
            r, h = PC.build_solve_pychebfun(f, .6, [lo, hi], N=N, N_max=N_max, find_roots=find)
            return {'r': sorted(fl(r)), 'points': len(pts)}
        T.call('resolve', quiet(run), dict(lo=dom[0], hi=dom[1], cs=cs, s=s, find=4, N=rng.choice([4, 8, 15]), N_max=rng.choice([40, 100, 200])))
        return
    c, ins = rooted(dict(n=rng.randrange(1, 5), k=rng.choice(['inside', 'mixed', 'complex'])), rng)
    goal = rng.uniform(-3, 3)
    def run(lo, hi, c, goal, find, N, N_max):
        count = [0]
        def f(x):
            count[0] += 1
            if count[0] > 20000: raise RuntimeError('endless')
            return float(func(c, [lo, hi])(x)) + goal
        r, h = PC.build_solve_pychebfun(f, goal, [lo, hi], N=N, N_max=N_max, find_roots=find)
        return {'r': sorted(fl(r)), 'h': seen(h)}
    T.call('solve', quiet(run), dict(lo=dom[0], hi=dom[1], c=c, goal=goal, find=len(ins) if k == 'solve' else len(ins) + 2, N=rng.choice([8, 15]), N_max=rng.choice([40, 100])), u=ins)


def misc(job, rng, T):
    k, n = job['k'], job['n']
    dom = domain(rng, job['d'])
    lo, hi = dom
    c, cg = series(rng, n), series(rng, rng.randrange(1, 4))
    if k == 'vector':
        c2 = series(rng, n)
        def run(lo, hi, c, d):
            f = chebfun(chebcoeff=np.array([c, d]).T, domain=[lo, hi])
            x = at(f)
            D, I = f.differentiate(), f.integrate()
            return {'x': x, 'v': [fl(f(z)) for z in x], 'sum': fl(f.sum()), 'd': [fl(D(z)) for z in x], 'i': [fl(I(z)) for z in x], 'parts': [seen(f[0]), seen(f[1])]}
        T.call('vector', quiet(run), dict(lo=lo, hi=hi, c=c, d=c2))
    elif k == 'convert':
        def run(lo, hi, c, direct):
            f = mk(c, [lo, hi])
            a = (f,) if direct else (np.array(c), [lo, hi])
            x = at(f)
            env = {'horner': horner}
            first, second = PC.chebfun_to_poly(*a, text=True).split('\n')
            exec(first, env)
            return {'u': fl(PC.chebfun_to_poly(*a)), 'p': fl(PC.cheb_to_poly(*a)), 'x': x, 'text': [float(eval(second, dict(env, x=z))) for z in x], 'range': fl(PC.cheb_range_simplifier(lo, hi)),
                    'rtext': [float(eval(PC.cheb_range_simplifier(lo, hi, text=True), {'chebval': lambda y, q: y, 'coeffs': None, 'x': z})) for z in x]}
        for direct in (True, False): T.call('convert', quiet(run), dict(lo=lo, hi=hi, c=c, direct=direct))
    elif k == 'dot':
        T.call('dot', quiet(lambda lo, hi, c, cg: [float(mk(c, [lo, hi]).dot(mk(cg, [lo, hi]))), float(mk(c, [lo, hi]).norm())]), dict(lo=lo, hi=hi, c=c, cg=cg))
    elif k == 'equal':
        for d in (0.0, 1e-12, rng.choice([1e-3, 1e-6, .5])):
            c2 = list(c); c2[rng.randrange(n)] += d*rng.choice([1, -1])
            def run(lo, hi, c, c2):
                f, g = mk(c, [lo, hi]), mk(c2, [lo, hi])
                return [bool(f == g), bool(f != g), bool(g == f), bool(f - g), bool(f == c[0]), bool(f)]
            T.call('equal', quiet(run), dict(lo=lo, hi=hi, c=c, c2=c2))
    else:
        f, g = quiet(mk)(c, dom), quiet(mk)(cg, [lo, hi + .5])
        for q, r in (('add', lambda: f + g), ('mul', lambda: f*g), ('sub', lambda: g - f), ('div', lambda: f/g), ('below', lambda: f.restrict([lo - .1, hi])), ('above', lambda: f.restrict([lo, hi + .1])), ('type', lambda: chebfun(None)), ('steps', lambda: chebfun(np.sign, [-1.0, 1.3]))):
            T.call('refuse', quiet(lambda r=r: r() and 'answered'), {}, k=q)
            T.cell = None


def basis(job, rng, T):
    T.call('basis', quiet(lambda n: seen(Chebfun.basis(n))), dict(n=job['n']))


def run(job, rng, T, tier):
    T.trace(job['cell'])
    m = job['m']
    for rep in range(1 if m == 'walk' and tier == 'quick' else 2 if tier == 'quick' or m == 'walk' else 8):
        if rep: T.trace()
        globals()[m](job, rng, T)
        T.cell = None
