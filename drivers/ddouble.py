import math
from fluids.numerics import doubledouble as D


def hi(rng, z):
    s = rng.choice([1, -1])
    if z == 'unit': return s*rng.uniform(.5, 2)
    if z == 'small': return s*10**rng.uniform(-60, -1)
    if z == 'large': return s*10**rng.uniform(1, 60)
    if z == 'integer': return float(s*rng.randrange(1, 40))
    return s*(1 + rng.choice([-1, 1])*2.0**-rng.randrange(2, 53))


def lo(rng, x, l):
    u = math.ulp(x)/2
    if l == 'none': return 0.0
    if l == 'tiny': return rng.choice([1, -1])*u*2.0**-rng.randrange(20, 53)
    v = rng.uniform(.4, .99)*u
    if abs(math.frexp(x)[0]) == .5: v /= 2      # a power of two: half the spacing below
    return math.copysign(v, x if l == 'full' else -x)


def pair(rng, z, l):
    x = hi(rng, z)
    return x, lo(rng, x, l)


POS = ('sqrt_dd', 'cbrt_dd', 'cbrt_explicit_dd', 'log_dd')
TWO = ('add_dd', 'mul_dd', 'div_dd')


def pos(p): return p if p[0] > 0 else (-p[0], -p[1])


def call(T, op, fn, kw, **x):
    out = T.call(op, fn, kw, **x)
    T.cell = None
    return out


def fun(f):
    g = getattr(D, f)
    if f in TWO: return lambda x0, x1, y0, y1, g=g: list(g(x0, x1, y0, y1))
    return lambda x0, x1, y0, y1, g=g: list(g(x0, x1))


def real(job, rng, T):
    f = job['f']
    x = pair(rng, job['z'], job['l']); y = pair(rng, rng.choice(['unit', 'small', 'large', 'integer', 'near', job['z'], job['z']]), rng.choice(['none', 'full', 'opposite', job['l']]))
    if f == 'add_dd' and rng.random() < .3: y = (-x[0]*(1 + rng.choice([0, 0, 2.0**-52, 2.0**-40])), lo(rng, x[0], 'full'))
    if f in POS: x = pos(x)
    if f == 'exp_dd' and not (abs(x[0]) < 300):
        v = rng.uniform(-300, 300); x = v, lo(rng, v, job['l'])
    if rng.random() < .02 and f in ('sqrt_dd', 'add_dd', 'mul_dd', 'square_dd', 'cube_dd', 'exp_dd'): x = (0.0, 0.0)
    call(T, 'real', fun(f), dict(x0=x[0], x1=x[1], y0=y[0], y1=y[1]), f=f)


def exactmul(job, rng, T):
    call(T, 'exactmul', lambda x0, x1: list(D.mul_noerrors_dd(x0, x1)), dict(x0=hi(rng, job['z']), x1=hi(rng, rng.choice(['unit', 'small', 'large']))))


def intpow(job, rng, T):
    x = pair(rng, rng.choice(['unit', 'integer', 'near']), job['l'])
    call(T, 'intpow', lambda x0, x1, n: list(D.intpow_dd(x0, x1, n)), dict(x0=x[0], x1=x[1], n=job['n']))


def powr(job, rng, T):
    k = job['k']
    x = pos(pair(rng, rng.choice(['unit', 'integer', 'near', 'small']), job['l']))
    y = dict(whole=(rng.randrange(-6, 7), 0.0), wholefloat=(float(rng.randrange(-6, 7)), 0.0), fraction=pair(rng, 'unit', 'full'), negative=(-abs(hi(rng, 'unit')), 0.0), big=(rng.uniform(3, 20)*rng.choice([1, -1]), 1e-17))[k]
    if k == 'big':
        x = pos(pair(rng, 'unit', job['l'])); y = (y[0], lo(rng, y[0], 'full'))
    if rng.random() < .2 and k == 'wholefloat': y = (y[0], lo(rng, y[0] or 1., 'tiny') if y[0] else 0.0)
    if abs(y[0]*math.log(x[0])) > 280: x = pos(pair(rng, 'unit', job['l']))
    call(T, 'pow', lambda x0, x1, y0, y1: list(D.pow_dd(x0, x1, y0, y1)), dict(x0=x[0], x1=x[1], y0=y[0], y1=y[1]))


def compare(job, rng, T):
    k = job['k']
    x = pair(rng, rng.choice(['unit', 'large', 'small']), rng.choice(['full', 'opposite', 'tiny']))
    y = x
    if k == 'high': y = pair(rng, 'unit', 'full')
    if k == 'low': y = (x[0], x[1]*(1 + 2.0**-52))
    if k == 'lowbelow': y = (x[0], -x[1])
    if k == 'sign': y = (-x[0], -x[1])
    if rng.random() < .5: x, y = y, x
    call(T, 'compare', lambda **a: [bool(getattr(D, n + '_dd')(a['x0'], a['x1'], a['y0'], a['y1'])) for n in ('eq', 'neq', 'lt', 'le', 'gt', 'ge')], dict(x0=x[0], x1=x[1], y0=y[0], y1=y[1]))


def cplx(job, rng, T):
    f, q = job['f'], job['q']
    def num():
        m = 10**rng.uniform(-3, 3)
        t = rng.uniform(.02, 1.55)
        a, b = m*math.cos(t), m*math.sin(t)
        if q in ('q2', 'q3'): a = -a
        if q in ('q3', 'q4'): b = -b
        if q in ('real', 'negreal'): b = 0.0
        if q == 'negreal': a = -a
        if q == 'imag': a, b = 0.0, b*rng.choice([1, -1])
        l = rng.choice(['none', 'full', 'opposite', 'tiny'])
        return [a, lo(rng, a, l) if a else 0.0, b, lo(rng, b, l) if b else 0.0]
    x = num()
    g = getattr(D, f)
    names = 'abcdefgh'
    if f in ('imag_inv_dd', 'sqrt_imag_dd', 'cbrt_imag_dd'):
        if f == 'cbrt_imag_dd' and q == 'negreal': x[2] = 0.0
        call(T, 'cplx', lambda a, b, c, d, g=g: list(g(a, b, c, d)), dict(zip(names, x)), f=f)
        return
    q = rng.choice([q, 'q1', 'q2', 'q3', 'q4']); y = num()
    if f == 'mul_imag_noerrors_dd':
        x[1] = x[3] = y[1] = y[3] = 0.0
        call(T, 'cplx', lambda a, b, c, d, e, f, g, h, F=g: list(F(a, c, e, g)), dict(zip(names, x + y)), f=f)
    else: call(T, 'cplx', lambda a, b, c, d, e, f, g, h, F=g: list(F(a, b, c, d, e, f, g, h)), dict(zip(names, x + y)), f=f)


def chain(job, rng, T):
    x = pair(rng, 'unit', rng.choice(['none', 'full']))
    r = list(pos(x))
    call(T, 'start', lambda x0, x1: [x0, x1], dict(x0=r[0], x1=r[1]))
    for f in job['fs'] + [rng.choice(list(TWO)), rng.choice(['sqrt_dd', 'square_dd', 'cbrt_dd'])]:
        if not isinstance(r, list) or not r[0] > 0: break
        y = pos(pair(rng, rng.choice(['unit', 'near', 'integer']), 'full'))
        r = call(T, 'chain', lambda y0, y1, f=f, r=tuple(r): fun(f)(r[0], r[1], y0, y1), dict(y0=y[0], y1=y[1]), f=f)


def run(job, rng, T, tier):
    T.trace(job['cell'])
    for r in range(3 if tier == 'quick' else 25):
        if r: T.trace()
        {'pow': powr}.get(job['m'], globals().get(job['m']))(job, rng, T)
