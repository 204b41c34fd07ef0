import fluids
from fluids import core, fittings

EDGE = {('temp', a, b): '%s2%s' % (a, b) for a in 'CKFR' for b in 'CKFR' if a != b}
EDGE.update({('loss', 'K', 'Kv'): 'K_to_Kv', ('loss', 'Kv', 'K'): 'Kv_to_K', ('loss', 'K', 'Cv'): 'K_to_Cv', ('loss', 'Cv', 'K'): 'Cv_to_K',
             ('loss', 'Kv', 'Cv'): 'Kv_to_Cv', ('loss', 'Cv', 'Kv'): 'Cv_to_Kv', ('loss', 'f', 'K'): 'K_from_f', ('loss', 'K', 'f'): 'f_from_K',
             ('loss', 'LD', 'K'): 'K_from_L_equiv', ('loss', 'K', 'LD'): 'L_equiv_from_K', ('loss', 'K', 'L'): 'L_from_K',
             ('head', 'P', 'head'): 'head_from_P', ('head', 'head', 'P'): 'P_from_head',
             ('visc', 'mu', 'nu'): 'nu_mu_converter', ('visc', 'nu', 'mu'): 'nu_mu_converter'})


def kwargs(fam, a, b, x, c):
    fn = EDGE[fam, a, b]
    if fam == 'temp':
        return {{'R': 'Ra'}.get(a, a): x}
    if fam == 'loss':
        return {'K_to_Kv': {'K': x, 'D': c['D']}, 'Kv_to_K': {'Kv': x, 'D': c['D']}, 'K_to_Cv': {'K': x, 'D': c['D']}, 'Cv_to_K': {'Cv': x, 'D': c['D']},
                'Kv_to_Cv': {'Kv': x}, 'Cv_to_Kv': {'Cv': x}, 'K_from_f': {'fd': x, 'L': c['L'], 'D': c['D']}, 'f_from_K': {'K': x, 'L': c['L'], 'D': c['D']},
                'K_from_L_equiv': {'L_D': x, 'fd': c['fd']}, 'L_equiv_from_K': {'K': x, 'fd': c['fd']}, 'L_from_K': {'K': x, 'D': c['D'], 'fd': c['fd']}}[fn]
    if fam == 'head':
        return {a: x, 'rho': c['rho'], 'g': c['g']}
    return {'rho': c['rho'], a: x}


def start(fam, rng):
    c = {'fam': fam, 'D': rng.log(1e-3, 5), 'L': rng.log(1e-2, 1e4), 'fd': rng.choice([0.015, rng.log(5e-3, 0.1)]), 'rho': rng.log(0.1, 1.5e4),
         'g': rng.choice([9.80665, rng.uniform(1, 30)])}
    if c['D'] == 0: pass
    return c


def canon(fam, rng):
    if fam == 'temp':
        return rng.choice([0.0, 273.15, 273.16, 233.15, 255.372222222, 373.15, 459.67/1.8, rng.uniform(0, 50), rng.uniform(200, 400), rng.log(1e-3, 1e4)])
    if fam == 'loss':
        return rng.log(1e-4, 1e5)
    if fam == 'head':
        return rng.choice([rng.log(1e-3, 1e9), 0.0, -rng.log(1, 1e6)])
    return rng.log(1e-7, 1e2)


def node_val(fam, n, x, c):
    if fam == 'temp':
        return {'K': x, 'C': x - 273.15, 'R': x*1.8, 'F': x*1.8 - 459.67}[n]
    if fam == 'loss':
        Kv = c['D']**2*(1.6e9/x)**0.5
        return {'K': x, 'Kv': Kv, 'Cv': Kv*1.1560992283536566, 'f': x*c['D']/c['L'], 'LD': x/c['fd'], 'L': x*c['D']/c['fd']}[n]
    if fam == 'head':
        return x if n == 'P' else x/c['rho']/c['g']
    return x if n == 'mu' else x/c['rho']


def run(job, rng, T, tier):
    for _ in range(2 if tier == 'quick' else 6):
        fam, path = job['fam'], job['path']
        c = start(fam, rng)
        x0 = canon(fam, rng)
        T.trace(job['cell'])
        T.event('start', canon0=x0, c=c)
        x = node_val(fam, path[0], x0, c)
        for a, b in zip(path, path[1:]):
            fn = EDGE[fam, a, b]
            mod = getattr(core, fn, None) or getattr(fittings, fn)
            kw = kwargs(fam, a, b, x, c)
            if fam == 'head' and c['g'] == 9.80665 and rng.random() < .5:
                kw.pop('g')
            if fam == 'loss' and 'fd' in kw and c['fd'] == 0.015 and fn != 'K_from_f' and rng.random() < .5:
                kw.pop('fd')
            y = T.call(fn, mod, kw, x=x, to=b, **{'from': a})
            if not isinstance(y, (int, float)):
                break
            x = y
        if fam == 'visc':
            T.call('nu_mu_error', core.nu_mu_converter, {'rho': c['rho']})
            T.call('nu_mu_error', core.nu_mu_converter, {'rho': c['rho'], 'mu': 1e-3, 'nu': 1e-6})
