import os
os.environ['NUMBA_FUNCTION_CACHE_SIZE'] = '0'
import fluids, fluids.numba as N
import numpy as np
from lib_api import args, perturb, finite
AGAIN = 0.02


def arrays(kw):
    return {k: np.array(v) if isinstance(v, list) else v for k, v in kw.items()}


def plainly(r):
    if isinstance(r, np.ndarray): return r.tolist()
    if isinstance(r, (tuple, list)): return [plainly(v) for v in r]
    return r


def run(job, rng, T, tier):
    f, w = getattr(fluids, job['f']), getattr(N, job['f'])
    T.trace(job['cell'])
    bad = False
    for k, sig in enumerate(job['hist']):
        for x in (job['xs'] if k == 0 else rng.sample(job['xs'], min(len(job['xs']), 4))):
            base = args(x)
            us = {a['n']: a['u'] for a in x['args']}
            for t in range(40 if k else 1):
                kw = base if k == 0 and sig == 'real' else perturb(rng, x, base, (0.5, 0.1, 0.01)[min(t//10, 2)])
                if sig == 'whole':
                    for n, v in kw.items():
                        if isinstance(v, float) and abs(v) >= 3: kw[n] = int(round(v))
                r = T._do(f, (), dict(kw), 10)
                if finite(r): break
            else: continue
            T.call('compiled', lambda kw=kw: w(**arrays(kw)), {}, post=plainly, timeout=120, plain=r, site=job['f'])
            T.cell = None
        m = [n for n in ('Method', 'method') if n in base]
        if k == 0 and m and isinstance(base[m[0]], str):
            kw = dict(base); kw[m[0]] = 'No such method'
            if isinstance(T._do(f, (), dict(kw), 10), ValueError):
                T.call('refused', lambda kw=kw: w(**arrays(kw)), {}, post=plainly, timeout=120, site=job['f'])
