import warnings
from math import *
from tank import conf, kwargs, full_kwargs, attrs as all_attrs, level
from fluids.geometry import TANK
import fluids.geometry as G

HK = ('none', 'conical', 'ellipsoidal', 'spherical', 'torispherical', 'guppy')
SPECS = ('V', 'SA', 'V_partial', 'SA_partial', 'A_cross')


def battrs(t):
    return {'h_max': t.h_max, 'V_total': t.V_total}


def attrs(t):
    return {k: getattr(t, k) for k in ('D', 'L', 'L_over_D', 'V_total', 'sideA_a', 'sideB_a', 'sideA_a_ratio', 'sideB_a_ratio')}


def jobs(plan, tier):
    out = [{'kind': 'ops', 'cells': plan[k::24], 'k': k} for k in range(24)]
    out += [{'kind': 'solve', 'k': k} for k in range(16)]
    out += [{'kind': 'two', 'k': k} for k in range(16)]
    out += [{'kind': 'thick', 'k': k} for k in range(8)]
    return out


def rconf(rng, flatter=True):
    while True:
        c = conf(rng.random() < .6, rng.choice(HK[:5]), rng.choice(HK[:5]), rng)
        if c['horiz'] and rng.random() < .2:
            c['A'] = 'guppy'; c['aA'], c['fA'], c['kA'] = 0.3*c['D'], 1.0, 0.06
        if c['L'] > 0.2*c['D'] and all(c['a' + s] > 0.02*c['D'] or c[s] == 'none' for s in 'AB'):
            return c


LVH = ['sliver', 'low', 'knuckle-', 'knuckle+', 'below mid', 'mid', 'above mid', 'upper knuckle-', 'high', 'nearly full', 'full']
LVV = ['head A low', 'head A knuckle-', 'head A knuckle+', 'rim A', 'cylinder', 'cylinder high', 'rim B', 'head B low', 'head B knuckle-', 'head B high', 'full']


def ops(job, rng, T, tier):
    for cell in job['cells']:
        c = rconf(rng)
        T.trace(cell['cell'])
        t = T.call('build', TANK, full_kwargs(c), c=c, post=battrs, again=False)
        hm = t.h_max
        for op in cell['cell']:
            h = min(max(level(rng.choice(LVH if c['horiz'] else LVV), c, rng), 0), hm) if rng.random() < .7 else rng.random()*hm
            V = t.V_from_h(h) if rng.random() < .7 else rng.random()*t.V_total
            V = min(max(V, 0.0), t.V_total)
            if op == 'volume':
                T.call(op, t.V_from_h, {'h': h}, h=h)
            elif op == 'area':
                h = max(h, 1e-3*hm)
                T.call(op, t.SA_from_h, {'h': h}, h=h)
            elif op == 'surface':
                h = hm*rng.uniform(0.03, 0.97)
                T.call(op, t.A_cross_sectional, {'h': h}, h=h)
            elif op == 'level exact':
                T.call(op, t.h_from_V, {'V': V, 'method': 'brenth'}, V=V)
            elif op == 'level spline':
                kw = {'V': V} if rng.random() < .5 else {'V': V, 'method': 'spline'}
                T.call(op, t.h_from_V, kw, V=V, again=False)
            elif op == 'volume cheb':
                T.call(op, t.V_from_h, {'h': h, 'method': 'chebyshev'}, h=h)
            elif op == 'level cheb':
                T.call(op, t.h_from_V, {'V': V, 'method': 'chebyshev'}, V=V)
            elif op == 'table 37':
                T.call('table', t.set_table, {'n': 37}, n=37, again=False)
            elif op == 'table dx':
                T.call('table', t.set_table, {'dx': hm/10.5}, n=11, again=False)
            elif op == 'cheb':
                T.call(op, t.set_chebyshev_approximators, again=False)
        h = rng.uniform(.1, .9)*hm
        T.call('volume', t.V_from_h, {'h': h}, h=h)


def ratio_kwargs(c, rng):
    kw = {'horizontal': c['horiz']}
    for s in 'AB':
        if c[s] == 'none':
            continue
        kw['side' + s] = c[s]
        if c[s] == 'torispherical':
            kw['side%s_f' % s], kw['side%s_k' % s] = c['f' + s], c['k' + s]
        else:
            kw['side%s_a_ratio' % s] = c['a' + s]/c['D']
    return kw


def solve(job, rng, T, tier):
    for _ in range(8 if tier == 'quick' else 30):
        T.trace()
        c = rconf(rng)
        t = TANK(**full_kwargs(c))
        V = t.V_total
        m = rng.choice('DLR')
        given = {'D': c['D']} if m == 'D' else {'L': c['L']} if m == 'L' else {'L_over_D': c['L']/c['D']}
        kw = dict(ratio_kwargs(c, rng), V=V, **given)
        chk = dict(given)
        for s in 'AB':
            if c[s] not in ('none',):
                chk['side%s_a_ratio' % s] = c['a' + s]/c['D']
        T.call('solve V', TANK, kw, V=V, c=c, given=chk, post=attrs)
    T.trace()
    T.call('refused', TANK, {'V': V, 'D': 1.0, 'L': 2.0})
    T.call('refused', TANK, {'V': V, 'D': 1.0, 'L_over_D': 2.0})
    T.call('refused', TANK, {'V': V, 'L': 1.0, 'L_over_D': 2.0})
    T.call('refused', TANK, {'V': V, 'L': 1.0, 'sideA': 'conical', 'sideA_a': 0.1})
    T.call('refused', TANK, {'D': 1.0, 'L': 1.0, 'sideA': 'same', 'sideB': 'same'})
    T.call('refused', t.h_from_V, {'V': 0.5*V, 'method': rng.choice(['', 'Spline', 'brent', 'nope'])})
    T.call('refused', t.V_from_h, {'h': 0.1, 'method': rng.choice(['', 'Full', 'spline'])})
    T.call('refused', t.SA_from_h, {'h': 0.1, 'method': rng.choice(['', 'chebyshev', 'spline'])})


def spec(t, n, h):
    h = min(h, t.h_max)
    return {'V': lambda: t.V_total, 'SA': lambda: t.A, 'V_partial': lambda: t.V_from_h(h), 'SA_partial': lambda: t.SA_from_h(h),
            'A_cross': lambda: t.A_cross_sectional(h)}[n]()


def two(job, rng, T, tier):
    pairs = [(a, b) for a in SPECS for b in SPECS if a != b]
    for hz in (True, False):
        for a, b in pairs[job['k'] % 4::4] if tier == 'quick' else pairs:
            T.trace()
            want, out = [], []

            def batch(configs):
                res = []
                for D, L, h, kw in configs:
                    try:
                        t0 = TANK(D=D, L=L, **kw)
                        k2 = {'h': h} if not {a, b} <= {'V', 'SA'} else {}
                        t = TANK.from_two_specs(spec(t0, a, h), spec(t0, b, h), a, b, **k2, **kw)
                        res.append([spec(t, a, h), spec(t, b, h)])
                    except Exception as ex:
                        res.append([repr(ex)[:40], ''])
                return res
            cs = []
            for _ in range(10):
                D = rng.uniform(.8, 3); L = D*rng.uniform(1, 5)
                kw = {'horizontal': hz}
                if rng.random() < .6 or (not hz and {a, b} == {'V_partial', 'A_cross'}):
                    kw.update(sideA='ellipsoidal', sideB='conical', sideA_a_ratio=.25, sideB_a_ratio=.3)
                h = rng.uniform(.3, .7)*(D if hz else L)
                cs.append((D, L, h, kw))
                t0 = TANK(D=D, L=L, **kw)
                want.append([spec(t0, a, h), spec(t0, b, h)])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                T.call('two specs', batch, {'configs': cs}, want=want, pair=[a, b], horiz=hz, again=False)


def thick(job, rng, T, tier):
    for _ in range(8):
        while True:
            c = rconf(rng)
            if all(not (c[s] == 'spherical' and c['a' + s] > .45*c['D']) for s in 'AB'):   # a thicker sphere would no longer be a cap
                break
        T.trace()
        t = T.call('build', TANK, full_kwargs(c), c=c, post=battrs, again=False)
        th = rng.choice([1e-3, 0.01, rng.log(1e-4, 0.2)])*c['D']
        kw = {'thickness': th}
        tA = tB = th
        if rng.random() < .4:
            tA = kw['sideA_thickness'] = rng.log(1e-4, .05)*c['D']
        if rng.random() < .4:
            tB = kw['sideB_thickness'] = rng.choice([0.0, rng.log(1e-4, .05)*c['D']])
        T.call('thicken', t.add_thickness, kw, t=th, tA=tA, tB=tB, post=attrs, after=attrs(t))


def run(job, rng, T, tier):
    globals()[job['kind']](job, rng, T, tier)
