import fluids, fluids.vectorized as V
import numpy as np
from lib_api import args, perturb, finite


def image(o):
    if isinstance(o, tuple): return [image(x) for x in o]
    o = np.asarray(o)
    return {'shape': list(o.shape), 'items': o.ravel().tolist()}


def box(values, shape, kind):
    a = np.array(values, dtype=object) if any(not isinstance(v, (int, float)) or isinstance(v, bool) for v in values) else np.array(values)
    a = a.reshape(shape)
    return a if kind or not shape else a.tolist()


def run(job, rng, T, tier):
    x = job['x']
    f, w = getattr(fluids, x['f']), getattr(V, x['f'])
    base = args(x)
    T.trace(job['cell'])
    if job['m'] == 'whole':
        # whole numbers, as integers
        us = {a['n']: a['u'] for a in x['args']}
        names = [n for n in base if isinstance(base[n], (int, float)) and not isinstance(base[n], bool) and (abs(base[n]) >= 1.5 or isinstance(base[n], int))]
        if not names: T.event('skipped'); return
        rows, want = [], []
        for t in range(20):
            kw = dict(base)
            for n in names: kw[n] = base[n] if isinstance(base[n], int) and us[n] == 'dimensionless' and base[n] < 100 else int(round(base[n]*(1 if t == 0 else rng.uniform(.6, 1.5))))
            r = T._do(f, (), dict(kw), 10)
            if finite(r): rows.append(kw); want.append(r)
            if len(rows) >= 4: break
        if not rows: T.event('skipped'); return
        kw = {n: box([k[n] for k in rows], (len(rows),), rng.random() < .5) if n in names else base[n] for n in base}
        T.call('wide', lambda: w(**kw), {}, post=image, plain=want, tuple=isinstance(want[0], tuple), site=x['f'])
        return
    if job['m'] == 'wide':
        # arguments over decades: branches of the function side by side in one array
        rows, want = [], []
        for t in range(40 if tier == 'quick' else 150):
            kw = perturb(rng, x, base, 3.0 if t % 3 == 0 else 0.7 if t % 3 == 1 else 0.05)
            if t == 0: kw = base
            r = T._do(f, (), dict(kw), 10)
            if finite(r): rows.append(kw); want.append(r)
            if len(rows) >= 30 and tier == 'quick': break
        # results of an unusual type first, so that an array typed by its first element shows it
        kind = lambda r: [type(v).__name__ for v in (r if isinstance(r, tuple) else [r])]
        ks = [kind(r) for r in want]
        odd = sorted(range(len(rows)), key=lambda i: (ks.count(ks[i]), 'float' in ks[i]))
        keep = odd[:4] + rng.sample(odd[4:], min(4 if tier == 'quick' else 16, len(odd[4:])))
        if not keep: T.event('skipped'); return
        rows, want = [rows[i] for i in keep], [want[i] for i in keep]
        for order in (1, -1):
            R, Wt = rows[::order], want[::order]
            names = [n for n in base if len({repr(k[n]) for k in R}) > 1] or [n for n in base if isinstance(base[n], float)][:1] or list(base)[:1]
            if not names: names = []
            kw = {n: box([k[n] for k in R], (len(R),), rng.random() < .5) if n in names else base[n] for n in base}
            if not names: T.event('skipped'); return
            T.call('wide', lambda kw=kw: w(**kw), {}, post=image, plain=Wt, tuple=isinstance(Wt[0], tuple), site=x['f'])
            T.cell = None
        return
    na, nb = [], []
    for n in base:
        if isinstance(base[n], (float, int)) and not isinstance(base[n], bool): (na if rng.random() < .5 else nb).append(n)
    sa, sb, r, ia, ib = job['sa'], job['sb'], job['r'], job['ia'], job['ib']
    if not na and nb: na, nb = nb, na
    if not na or (not nb and sb): T.event('skipped'); return
    for width in (0.1, 0.03, 0.01, 0.001, 1e-5, 0.0):
        A = [perturb(rng, x, base, width) for _ in range(max(ia))]
        B = [perturb(rng, x, base, width) for _ in range(max(ib))]
        want = []
        for i, j in zip(ia, ib):
            kw = dict(base); kw.update({n: A[i - 1][n] for n in na}); kw.update({n: B[j - 1][n] for n in nb})
            want.append(T._do(f, (), kw, 10))
        if all(finite(v) for v in want): break
    kw = dict(base)
    for n in na: kw[n] = box([k[n] for k in A], sa, rng.random() < .5)
    for n in nb: kw[n] = box([k[n] for k in B], sb, rng.random() < .5)
    T.call('grid', lambda: w(**kw), {}, post=image, plain=want, sa=sa, sb=sb, tuple=isinstance(want[0], tuple), site=x['f'])
