import inspect, math
import fluids, fluids.units as U
import numpy as np
from fluids.units import u
from lib_api import args, perturb, finite

DIMS = ('[length]', '[mass]', '[time]', '[temperature]', '[substance]', '[current]')


def image(o):
    if isinstance(o, u.Quantity):
        d = dict(o.dimensionality)
        if str(o.units) == 'decibel': return {'d': [], 'm': 0.0, 'v': o.m, 'n': 'decibel'}
        m = o.to_base_units().m
        v = [round(12*float(d.pop(k, 0)), 6) for k in DIMS]
        return {'d': [int(t) if t == int(t) else t for t in v] + list(d), 'm': m.tolist() if isinstance(m, np.ndarray) else m}
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, np.generic): return o.item()
    if isinstance(o, (list, tuple)): return [image(v) for v in o]
    if isinstance(o, dict): return {k: image(v) for k, v in o.items()}
    if isinstance(o, U.UnitAwareClass): return type(o).__name__
    return o


def mag(v, doc, alt):
    """A magnitude in unit doc, measured in unit alt."""
    if doc['n'] == alt['n']: return v
    return (v*float(doc['s']) + float(doc['o']) - float(alt['o']))/float(alt['s'])


def quantity(v, a, doc, alt, rng):
    """What is handed over for an argument, and its record."""
    if v is None or isinstance(v, (bool, str)): return v, None
    if a['u'] == 'dimensionless' and (isinstance(v, int) or rng.random() < .4): return v, None
    if a['k'] == 'p' or isinstance(v, (list, tuple)):
        m = [mag(t, doc, alt) for t in v]
        return u.Quantity(np.array(m), alt['n']), {'n': a['n'], 'm': m[0], 'u': alt['n'], 'doc': doc['n'], 'v': v[0]}
    m = mag(v, doc, alt)
    return u.Quantity(m, alt['n']), {'n': a['n'], 'm': m, 'u': alt['n'], 'doc': doc['n'], 'v': v}


def nudge(kw, xs, h):
    o = {}
    for i, (n, v) in enumerate(kw.items()):
        o[n] = v*(1 + h*(1 if i % 2 else -1)) if isinstance(v, float) else v
    return o


def alike(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and all(alike(a[k], b.get(k)) for k in a)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool)) or a is None: return type(a) is type(b) and a == b
    if isinstance(b, (str, bool)) or not isinstance(b, (int, float)): return False
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-6*abs(a) + 1e-300


def plain(T, f, kw, xs):
    """The plain result with two a rounding error away, or None where they do not agree."""
    h = 1e-7 if f in (fluids.integrate_drag_sphere, fluids.SA_partial_horiz_torispherical_head, fluids.SA_tank, fluids.SA_from_h) else 4e-15   # steps of their integrations vary
    out = [T._do(f, (), dict(k), 20) for k in (kw, nudge(kw, xs, h), nudge(kw, xs, -h))]
    if any(isinstance(o, Exception) for o in out): return None
    return out if alike(out[0], out[1]) and alike(out[0], out[2]) else None


def value(a):
    v = a['v']
    return v if a['k'] in 'bs' else int(v) if a['k'] == 'i' else tuple(float(t) for t in v) if a['k'] == 'p' else float(v)


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    if m == 'object': return obj(job, rng, T)
    f, w = getattr(fluids, job['f']), getattr(U, job['f'])
    xs, us, doc = job['args'], job['us'], job['doc']
    base = args({'args': xs})
    if job['ret'] == 'dict':
        Q = {a['n']: quantity(base[a['n']], a, d, x, rng)[0] for a, d, x in zip(xs, doc, us)}
        given = [{'i': job['names'].index(n) + 1, 'v': float(v)} for n, v in base.items() if n in job['names']]
        T.call('jet', lambda: w(**Q), {}, again=False, post=lambda o: [image(o[n]) for n in job['names']], want=job['want'], given=[g for g in given if True], site=job['f'])
        return
    if m == 'refuse':
        n = job['arg']
        Q = {a['n']: quantity(base[a['n']], a, d, x, rng)[0] for a, d, x in zip(xs, doc, us)}
        k2 = dict(Q); k2[n] = u.Quantity(1.5, job['wrong'])
        T.call('wrong', lambda: w(**k2), {}, site=job['f']); T.cell = None
        k3 = dict(Q); k3[n] = base[n]
        T.call('bare', lambda: w(**k3), {}, site=job['f'])
        return
    for width in (0.1, 0.03, 0.01, 0.001, 1e-5, 0.0):
        kws = [perturb(rng, {'args': xs}, base, width) for _ in range(3 if m == 'array' else 1)]
        if m == 'array':
            fl = [a['n'] for a in xs if a['k'] == 'n' and isinstance(base[a['n']], float)]
            moving = [n for n in fl if rng.random() < .6] or fl[:1]
            kws = [{n: (k[n] if n in moving else kws[0][n]) for n in base} for k in kws]
        want = [plain(T, f, k, xs) for k in kws]
        if all(o is not None for o in want): break
    if any(o is None for o in want) or (m == 'array' and not moving): T.event('skipped'); return
    Q, rec = {}, []
    for a, d, x in zip(xs, doc, us):
        n = a['n']
        if m == 'array' and n in moving:
            ms = [mag(k[n], d, x) for k in kws]
            Q[n] = u.Quantity(np.array(ms), x['n']); rec += [{'n': n, 'm': t, 'u': x['n'], 'doc': d['n'], 'v': k[n]} for t, k in zip(ms, kws)]
        else:
            Q[n], r = quantity(kws[0][n], a, d, x, rng)
            if r: rec.append(r)
    pos = []
    if job.get('pos'):
        for p in inspect.signature(f).parameters:
            if p not in Q: break
            pos.append(Q.pop(p))
    if m == 'array':
        if job['ret'] == 'tuple': P = [[list(t) for t in zip(*[o[i] for o in want])] for i in range(3)]
        else: P = [[o[i] for o in want] for i in range(3)]
    else: P = want[0]
    if m == 'array': P = [[int(t) if isinstance(t, bool) else t for t in p] for p in P]
    T.call(m, lambda: w(*pos, **Q), {}, post=image, q=rec, want=job['want'], ret=job['ret'], plain=P[0], near=[P[1], P[2]], site=job['f'])


def obj(job, rng, T):
    x = job['x']
    c, W = getattr(fluids, x['cls']), getattr(U, x['cls'])
    for width in (0.1, 0.01, 0.0):
        kw = {a['n']: value(a)*math.exp(rng.uniform(-width, width)) if a['k'] == 'n' else value(a) for a in x['args']}
        plains = [T._do(c, (), k, 20) for k in (kw, nudge(kw, None, 4e-15), nudge(kw, None, -4e-15))]
        if not any(isinstance(p, Exception) for p in plains): break
    Q, rec = {}, []
    for a, d, alt in zip(x['args'], job['doc'], job['us']):
        Q[a['n']], r = quantity(kw[a['n']], a, d, alt, rng)
        if r: rec.append(r)
    o = T.call('made', lambda Q=Q: W(**Q), {}, post=image, q=rec, site=x['cls'])
    T.cell = None
    if isinstance(o, Exception): return
    for r in x['reads']:
        if not hasattr(plains[0], r['n']): continue
        v = [getattr(p, r['n']) for p in plains]
        if not (alike(v[0], v[1]) and alike(v[0], v[2])): continue
        T.call('read', lambda n=r['n']: getattr(o, n), {}, post=image, want=r['u'], plain=v[0], near=v[1:], site=x['cls'] + '.' + r['n'])
    for cl, cu in zip(x['calls'], job['cus']):
        k = {a['n']: value(a)*math.exp(rng.uniform(-.1, .1)) for a in cl['args']}
        v = [T._do(getattr(p, cl['n']), (), j, 20) for p, j in zip(plains, (k, nudge(k, None, 4e-15), nudge(k, None, -4e-15)))]
        if any(isinstance(t, Exception) for t in v): continue
        Q, rec = {}, []
        for a, d, alt in zip(cl['args'], cu['doc'], cu['us']):
            Q[a['n']], r = quantity(k[a['n']], a, d, alt, rng)
            if r: rec.append(r)
        if cl['u'] == 'object':
            v = [[t.V_total, t.A] for t in v]
            T.call('method', lambda n=cl['n'], Q=Q: getattr(o, n)(**Q).V_total, {}, post=image, q=rec, want='m^3', plain=v[0][0], near=[v[1][0], v[2][0]], site=x['cls'] + '.' + cl['n'])
            T.call('method', lambda n=cl['n'], Q=Q: getattr(o, n)(**Q).A, {}, post=image, q=rec, want='m^2', plain=v[0][1], near=[v[1][1], v[2][1]], site=x['cls'] + '.' + cl['n'])
            continue
        if not (alike(v[0], v[1]) and alike(v[0], v[2])): continue
        T.call('method', lambda n=cl['n'], Q=Q: getattr(o, n)(**Q), {}, post=image, q=rec, want=cl['u'], plain=v[0], near=v[1:], site=x['cls'] + '.' + cl['n'])
