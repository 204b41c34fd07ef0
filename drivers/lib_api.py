"""Shared by the drivers of the interface adapters."""
import math


def args(x):
    """The keyword arguments of an example of the interface specification."""
    o = {}
    for a in x['args']:
        k, v = a['k'], a['v']
        o[a['n']] = None if k == 'z' else int(v) if k == 'i' else float(v) if k == 'n' else [float(t) for t in v] if k == 'l' else v
    return o


def perturb(rng, x, base, width):
    """Numbers moved by a factor of up to e**width; counts and choices kept."""
    u = {a['n']: a['u'] for a in x['args']}
    o = {}
    for n, v in base.items():
        if isinstance(v, bool) or v is None or isinstance(v, str): o[n] = v
        elif isinstance(v, list): o[n] = [t*math.exp(rng.uniform(-width, width)) for t in v] if width < .2 else v
        elif isinstance(v, int) and u[n] == 'dimensionless': o[n] = v
        else: o[n] = v*math.exp(rng.uniform(-width, width)) if rng.random() < .8 or width < .2 else v
    return o


def finite(r, *_):
    if isinstance(r, bool) or isinstance(r, str): return True
    if isinstance(r, (list, tuple)): return all(finite(v) for v in r)
    return isinstance(r, (int, float)) and math.isfinite(r)
