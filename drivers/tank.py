from math import *
from fluids import geometry as G
from fluids.geometry import TANK

ATTR = ('D', 'L', 'L_over_D', 'R', 'sideA_a', 'sideB_a', 'sideA_a_ratio', 'sideB_a_ratio', 'h_max', 'V_total', 'V_sideA', 'V_sideB', 'V_lateral',
        'A', 'A_sideA', 'A_sideB', 'A_lateral', 'A_sideA_extra', 'A_sideB_extra')


def attrs(t):
    return {k: getattr(t, k) for k in ATTR}


def head(kind, D, rng, flat=False):
    """depth, f, k"""
    if kind == 'none':
        return 0.0, 1.0, 0.06
    if kind == 'torispherical':
        f, k = rng.choice([(1.0, 0.06), (0.9, 0.1), (0.8, 0.154), (1.0, 0.1), (rng.uniform(0.75, 1.5), rng.uniform(0.03, 0.2))])
        al = asin((1 - 2*k)/(2*(f - k)))
        return f*D*(1 - cos(al)) + k*D*cos(al), f, k
    if flat and rng.random() < .06:
        return 0.0, 1.0, 0.06
    if kind == 'spherical':
        return D*rng.choice([0.5, 0.25, rng.uniform(0.02, 0.499), rng.uniform(0.02, 0.5), 0.008]), 1.0, 0.06
    return D*rng.choice([0.25 if kind == 'guppy' else 0.5, 0.25, rng.uniform(0.02, 0.5), rng.uniform(0.501, 1.2)]), 1.0, 0.06


def tori_marks(D, f, k):
    al = asin((1 - 2*k)/(2*(f - k)))
    return k*D*(1 - sin(al)), f*D*(1 - cos(al))   # limit height horizontal; a1 vertical


def level(name, c, rng):
    D, L, aA, aB = c['D'], c['L'], c['aA'], c['aB']
    j = lambda a, b: rng.uniform(a, b)
    if c['horiz']:
        side = rng.choice('AB')
        lim = tori_marks(D, c['f' + side], c['k' + side])[0] if c[side] == 'torispherical' else 0.1*D
        eps = 10**j(-9, -3)
        return {'empty': 0.0, 'sliver': D*10**j(-8, -2), 'low': D*j(0.01, 0.3), 'knuckle-': lim*(1 - eps), 'knuckle+': lim*(1 + eps), 'below mid': D*(0.5 - 10**j(-9, -1)),
                'mid': D*0.5, 'above mid': D*(0.5 + 10**j(-9, -1)), 'upper knuckle-': D - lim*(1 + eps), 'upper knuckle+': D - lim*(1 - eps), 'high': D*j(0.6, 0.99),
                'nearly full': D*(1 - 10**j(-8, -2)), 'full': D, 'over': D*j(1.0, 2.0)}[name]
    a1A = tori_marks(D, c['fA'], c['kA'])[1] if c['A'] == 'torispherical' else aA*j(0, 1)
    a1B = tori_marks(D, c['fB'], c['kB'])[1] if c['B'] == 'torispherical' else aB*j(0, 1)
    e = 10**j(-9, -3)
    full = L + aA + aB
    return {'empty': 0.0, 'sliver': aA*10**j(-6, -2), 'head A low': aA*j(0.01, 0.99), 'head A knuckle-': a1A*(1 - e), 'head A knuckle+': min(aA, a1A*(1 + e)), 'rim A': aA,
            'cylinder': aA + L*j(0, 1), 'cylinder high': aA + L*(1 - 10**j(-9, -1)), 'rim B': aA + L, 'head B low': aA + L + aB*10**j(-6, -1),
            'head B knuckle-': aA + L + aB - a1B*(1 + e) if a1B*(1 + e) < aB else aA + L, 'head B knuckle+': aA + L + aB - a1B*(1 - e), 'head B high': aA + L + aB*j(0.5, 1 - 1e-6), 'full': full,
            'over': full*j(1, 2)}[name]


def conf(horiz, A, B, rng):
    D = rng.choice([1.0, rng.log(0.3, 30)])
    L = D*rng.choice([1.0, rng.log(0.05, 20)])
    c = {'D': D, 'L': L, 'horiz': horiz, 'A': A, 'B': B}
    c['aA'], c['fA'], c['kA'] = head(A, D, rng, not horiz)
    if B == A and rng.random() < 0.4:
        c['aB'], c['fB'], c['kB'] = c['aA'], c['fA'], c['kA']
    else:
        c['aB'], c['fB'], c['kB'] = head(B, D, rng, not horiz)
        if A == B == 'torispherical' and rng.random() < 0.6:   # heads that share one of the two radii only
            f, k = (c['fA'], rng.choice([.06, .1, rng.uniform(.03, .2)])) if rng.random() < .5 else (rng.choice([1., .9, rng.uniform(.75, 1.5)]), c['kA'])
            al = asin((1 - 2*k)/(2*(f - k)))
            c['aB'], c['fB'], c['kB'] = f*D*(1 - cos(al)) + k*D*cos(al), f, k
    return c


def kwargs(c, rng):
    kw = {'horizontal': c['horiz']}
    D, L = c['D'], c['L']
    m = rng.randrange(3)
    kw.update([{'D': D, 'L': L}, {'D': D, 'L_over_D': L/D}, {'L': L, 'L_over_D': L/D}][m])
    for s in 'AB':
        k = c[s]
        if k == 'none':
            continue
        kw['side' + s] = k
        if k == 'torispherical':
            if not (c['f' + s] == 1.0 and c['k' + s] == 0.06 and rng.random() < 0.5):
                kw['side%s_f' % s], kw['side%s_k' % s] = c['f' + s], c['k' + s]
        elif c['a' + s] == 0.25*D and rng.random() < 0.5:
            pass
        elif rng.random() < 0.5:
            kw['side%s_a' % s] = c['a' + s]
            if rng.random() < 0.2:   # a depth given outright outranks a ratio
                kw['side%s_a_ratio' % s] = rng.choice([.25, .3, c['a' + s]/D])
        else:
            kw['side%s_a_ratio' % s] = c['a' + s]/D
    if c['A'] == c['B'] and c['A'] != 'none' and c['aA'] == c['aB'] and c['fA'] == c['fB'] and c['kA'] == c['kB'] and rng.random() < 0.6:
        s, o = rng.choice(['AB', 'BA'])
        for k in list(kw):
            if k.startswith('side' + s):
                del kw[k]
        kw['side' + s] = 'same'
    return kw


def full_kwargs(c):
    kw = {'D': c['D'], 'L': c['L'], 'horizontal': c['horiz'], 'sideA_a': c['aA'], 'sideB_a': c['aB']}
    for s in 'AB':
        if c[s] != 'none':
            kw['side' + s] = c[s]
        if c[s] == 'torispherical':
            kw['side%s_f' % s], kw['side%s_k' % s] = c['f' + s], c['k' + s]
    return kw


def jobs(plan, tier):
    by = {}
    for p in plan:
        by.setdefault((p['horiz'], p['A'], p['B']), []).append(p)
    out = [{'kind': 'tank', 'key': k, 'cells': v} for k, v in sorted(by.items(), key=str)]
    out += [{'kind': 'heads', 'n': k} for k in range(24)]
    return out


VH = {'conical': G.V_horiz_conical, 'ellipsoidal': G.V_horiz_ellipsoidal, 'guppy': G.V_horiz_guppy, 'spherical': G.V_horiz_spherical}
VV = {'conical': G.V_vertical_conical, 'ellipsoidal': G.V_vertical_ellipsoidal, 'spherical': G.V_vertical_spherical}
VC = {'conical': G.V_vertical_conical_concave, 'ellipsoidal': G.V_vertical_ellipsoidal_concave, 'spherical': G.V_vertical_spherical_concave}
AH = {'conical': G.SA_partial_horiz_conical_head, 'ellipsoidal': G.SA_partial_horiz_ellipsoidal_head, 'guppy': G.SA_partial_horiz_guppy_head, 'spherical': G.SA_partial_horiz_spherical_head}
AV = {'conical': G.SA_partial_vertical_conical_head, 'ellipsoidal': G.SA_partial_vertical_ellipsoidal_head, 'spherical': G.SA_partial_vertical_spherical_head}
AT = {'conical': G.SA_conical_head, 'ellipsoidal': G.SA_ellipsoidal_head, 'guppy': G.SA_guppy_head}


def heads(rng, T, tier):
    for kind in ('conical', 'ellipsoidal', 'spherical', 'torispherical', 'guppy'):
        for fn in ('VH', 'VV', 'VVconcave', 'AH', 'AV', 'AT'):
            for _ in range(3 if tier == 'quick' else 12):
                D = rng.choice([1.0, 2.0, rng.log(0.3, 50)])
                a, f, k = head(kind, D, rng, fn in ('VV', 'AV'))
                if fn in ('AT', 'AH') and kind in ('ellipsoidal', 'spherical', 'guppy') and rng.random() < .25:
                    a = D*0.5
                L = D*rng.log(0.05, 20)
                c = {'D': D, 'L': L, 'horiz': fn[1] == 'H', 'A': kind, 'B': kind, 'aA': a, 'fA': f, 'kA': k, 'aB': a, 'fB': f, 'kB': k, 'kind': kind, 'a': a, 'f': f, 'k': k, 'neg': False, 'headonly': True}
                names = ['empty', 'sliver', 'low', 'knuckle-', 'knuckle+', 'below mid', 'mid', 'above mid', 'upper knuckle-', 'upper knuckle+', 'high', 'nearly full', 'full', 'over'] if c['horiz'] else \
                        ['empty', 'sliver', 'head A low', 'head A knuckle-', 'head A knuckle+', 'rim A', 'cylinder']
                h = level(rng.choice(names), c, rng)
                if rng.random() < 0.05 and fn not in ('VVconcave',):
                    h = -rng.random()*D
                c['h'] = h
                T.trace()
                tori = kind == 'torispherical'
                dims = {'D': D, 'f': f, 'k': k} if tori else {'D': D, 'a': a}
                if fn == 'VH':
                    c['headonly'] = rng.random() < 0.5
                    kw = dict(dims, L=L, h=h)
                    if c['headonly'] or rng.random() < .5:
                        kw['headonly'] = c['headonly']
                    if not tori and rng.random() < 0.35:
                        c['neg'] = True
                        kw['a'] = -a
                    T.call('head', G.V_horiz_torispherical if tori else VH[kind], kw, what=fn, c=c)
                elif fn == 'VV' and kind != 'guppy':
                    T.call('head', G.V_vertical_torispherical if tori else VV[kind], dict(dims, h=h), what=fn, c=c)
                elif fn == 'VVconcave' and kind != 'guppy':
                    kw = dict(dims, h=h)
                    if not tori:
                        kw['a'] = -a
                    T.call('head', G.V_vertical_torispherical_concave if tori else VC[kind], kw, what=fn, c=c)
                elif fn == 'AH':
                    site = 'SA_horiz_%s%s%s' % (kind, ' hemispherical' if a == 0.5*D and kind == 'guppy' else '', ' outside' if not 0 <= h <= D else '')
                    T.call('head', G.SA_partial_horiz_torispherical_head if tori else AH[kind], dict(dims, h=h), what=fn, c=c, site=site)
                elif fn == 'AV' and kind != 'guppy':
                    T.call('head', G.SA_partial_vertical_torispherical_head if tori else AV[kind], dict(dims, h=h), what=fn, c=c)
                elif fn == 'AT' and kind != 'spherical':
                    T.call('head', G.SA_torispheroidal if tori else AT[kind], dims, what=fn, c=c)
                if tori:
                    T.call('head', G.a_torispherical, dims, what='depth', c=c)
    for _ in range(6):
        D = rng.log(0.3, 50)
        c = {'D': D, 'L': D*rng.log(.05, 20), 'a': 0.0, 'neg': False, 'h': D*rng.choice([0., .5, 1., 1.3, -0.2, rng.random(), rng.random(), 10**rng.uniform(-9, -1), 1 - 10**rng.uniform(-9, -1)])}
        T.trace()
        kw = {'D': D, 'h': c['h']}
        T.call('head', G.V_partial_sphere, kw, what='sphere volume', c=c)
        T.call('head', G.SA_partial_sphere, kw, what='sphere area', c=c)
        T.call('head', G.A_partial_circle, kw, what='segment area', c=c)
        T.call('head', G.SA_partial_cylindrical_body, dict(kw, L=c['L']), what='segment arc', c=c)


def run(job, rng, T, tier):
    if job['kind'] == 'heads':
        return heads(rng, T, tier)
    horiz, A, B = job['key']
    for rep in range(1 if tier == 'quick' else 4):
        for cell in job['cells']:
            c = conf(horiz, A, B, rng)
            T.trace(cell['cell'])
            t = T.call('build', TANK, kwargs(c, rng), c=c, post=attrs, site='build guppy' if 'guppy' in (A, B) else 'build')
            if not isinstance(t, TANK):
                continue
            levels = [cell['level']] + [rng.choice(job['cells'])['level'] for _ in range(2)]
            for lv in levels:
                h = level(lv, c, rng)
                if rng.random() < 0.5:
                    T.call('V_from_h', t.V_from_h, {'h': h}, h=h)
                else:
                    T.call('V_from_h', G.V_from_h, dict(full_kwargs(c), h=h), h=h)
                if h > 0:   # whether a dry vertical vessel wets its flat bottom is a matter of convention
                    if rng.random() < 0.5:
                        T.call('SA_from_h', t.SA_from_h, {'h': h}, h=h)
                    else:
                        T.call('SA_from_h', G.SA_from_h, dict(full_kwargs(c), h=h), h=h)
    T.trace()
    c = conf(horiz, A, B, rng)
    T.call('build', TANK, kwargs(c, rng), c=c, post=attrs, site='build guppy' if 'guppy' in (A, B) else 'build')
    kw = full_kwargs(c)
    kw[rng.choice(['sideA', 'sideB'])] = rng.choice(['conicall', 'flat', 'Spherical', ''])
    T.call('refused', G.V_from_h, dict(kw, h=0.1*c['D']))
    T.call('refused', G.V_tank, kw)
    T.call('refused', G.SA_from_h, dict(kw, h=0.1*c['D']))
    if 'torispherical' in (A, B):   # a torispherical head needs both of its radii
        for fn in (G.V_from_h, G.SA_from_h, G.V_tank, G.SA_tank):
            kw = full_kwargs(c)
            s = rng.choice([x for x in 'AB' if c[x] == 'torispherical'])
            for q in rng.choice(['f', 'k', 'fk']): kw.pop('side%s_%s' % (s, q))
            if fn in (G.V_tank, G.SA_tank): kw.pop('horizontal')
            if fn is G.SA_tank: kw.pop('horizontal', 0)
            if fn in (G.V_from_h, G.SA_from_h): kw['h'] = (c['L'] + c['aA'] + c['aB'])*(1 - 1e-9) if not horiz else c['D']*rng.random()
            T.call('refused', fn, kw)
