from fluids import particle_size_distribution as M

KINDS = {'lognormal': M.PSDLognormal, 'ggs': M.PSDGatesGaudinSchuhman, 'rr': M.PSDRosinRammler}
OPTS = {'ISO': 'ISO 3310-1', 'R20': 'ISO 3310-1 R20', 'R20_3': 'ISO 3310-1 R20/3', 'R40_3': 'ISO 3310-1 R40/3', 'R10': 'ISO 3310-1 R10', 'ASTM': 'ASTM E11'}


def law(rng, kind, cut, order):
    if kind == 'lognormal': a, b = rng.log(1e-7, 1e-2), rng.uniform(.1, 1.1)
    elif kind == 'ggs': a, b = rng.log(1e-6, 1e-2), rng.uniform(3.2, 6)
    else:
        b = rng.uniform(3.3, 6)
        a = rng.log(1e-6, 1e-2)**-b
    scale = a if kind != 'rr' else a**(-1/b)
    lo = hi = None
    if kind == 'lognormal':
        import math
        if cut in ('lo', 'both'): lo = scale*math.exp(-b*rng.uniform(.2, 2))
        if cut in ('hi', 'both'): hi = scale*math.exp(b*rng.uniform(-.1, 2))
    else:
        if cut in ('lo', 'both'): lo = scale*rng.uniform(.2, .6)
        if cut in ('hi', 'both'): hi = scale*rng.uniform(.7, .99)
    return a, b, lo, hi, scale


def make(kind, a, b, order, lo, hi):
    kw = dict(order=order)
    if lo is not None: kw['d_min'] = lo
    if hi is not None: kw['d_max'] = hi
    names = {'lognormal': ('d_characteristic', 's'), 'ggs': ('d_characteristic', 'm'), 'rr': ('k', 'm')}[kind]
    return KINDS[kind](**{names[0]: a, names[1]: b}, **kw)


def N(kw, n):
    if n != 'None': kw['n'] = float(n) if '.' in n else int(n)
    return kw


def run(job, rng, T, tier):
    k, cut, order, hist = job['kind'], job['cut'], int(job['order']), job['hist']
    T.trace(job['cell'])
    many = 1 if tier == 'quick' else 5
    if k in KINDS:
        for _ in range((1 if len(hist) == 2 else 4)*many):
            a, b, lo, hi, sc = law(rng, k, cut, order)
            psd = make(k, a, b, order, lo, hi)
            p = dict(kind=k, a=a, b=b, order=order, lo=lo, hi=hi)
            def d():
                x = sc*rng.choice([rng.uniform(.2, 1.6), rng.uniform(.5, 1), rng.log(.05, 4)])
                return rng.choice([x, x, x] + [v*f for v in (lo, hi) if v for f in (1, 1.001, .999)] + ([sc, sc*1.01] if k == 'ggs' else []))
            for n in (hist or ['None']):
                x = d()
                T.call('pdf', psd.pdf, N(dict(d=x), n), p=p, fresh=make(k, a, b, order, lo, hi).pdf(**N(dict(d=x), n)))
                T.call('cdf', psd.cdf, N(dict(d=x), n), p=p, fresh=make(k, a, b, order, lo, hi).cdf(**N(dict(d=x), n)))
                T.call('dn', psd.dn, N(dict(fraction=rng.choice([rng.random(), rng.log(1e-3, 1), 1 - rng.log(1e-3, 1)])), n), p=p)
                if not hist or len(hist) == 1:
                    x, y = sorted([d(), d()])
                    T.call('delta', psd.delta_cdf, N(dict(d_min=x, d_max=y), n), p=p)
                    ds = sorted(d() for _ in range(rng.randint(1, 6)))
                    T.call('cdfs', psd.cdf_discrete, N(dict(ds=ds), n), p=p)
                    T.call('fracs', psd.fractions_discrete, N(dict(ds=ds), n), p=p)
            if not hist:
                for f in (0, -.1, 1.5): T.call('dn', psd.dn, dict(fraction=f), p=p)
                P, Q = rng.randint(0, 6), rng.randint(0, 5)
                T.call('mean', psd.mean_size, dict(p=P, q=Q), p=p)
                T.call('mean', psd.mean_size, dict(p=Q, q=P), p=p)
                T.call('iso', psd.mean_size_ISO, dict(k=rng.randint(0, 4), r=rng.randint(0, 3)), p=p)
                T.call('vssa', lambda psd=psd: psd.vssa, {}, p=p)
                kw = {}
                if rng.random() < .5: kw['limit'] = rng.choice([1e-9, 1e-6, 1e-3])
                if rng.random() < .4: kw['d_min'] = sc*rng.uniform(.1, .5)
                if rng.random() < .4: kw['d_max'] = sc*rng.uniform(.6, 2)
                if rng.random() < .7: kw['pts'] = rng.randint(2, 12)
                if rng.random() < .7: kw['method'] = rng.choice(['linear', 'logarithmic'])
                T.call('ds', psd.ds_discrete, kw, p=p)
    elif k == 'discrete':
        for _ in range((1 if len(hist) == 2 else 8)*many):
            n = rng.randint(3 if cut == 'points' else 2, 12)
            ds = [rng.log(1e-6, 1e-3)]
            for _ in range(n - (cut == 'points')): ds.append(ds[-1]*rng.uniform(1.05, 2))
            f = [rng.choice([rng.random(), rng.randint(0, 50), rng.log(1e-3, 1)]) for _ in range(n)]
            if sum(1 for x in f if x) < 2: f = [1.0]*n
            cdf = rng.random() < .3
            if cdf:
                if cut == 'points': f[0] = 0.0
                if not sum(f): f[-1] = 1.0
                s, c = sum(f), 0.0
                g = []
                for x in f:
                    c += x
                    g.append(c/s)
                g[-1] = 1.0
                f = g
            else:
                f = rng.choice([f, [x/sum(f) for x in f]])
            q = dict(ds=ds, f=f, order=order, cdf=cdf)
            kw = dict(ds=ds, fractions=f)
            if order != 3 or rng.random() < .5: kw['order'] = order
            if cdf: kw['cdf'] = True
            mk = lambda: M.ParticleSizeDistribution(**kw)
            psd = mk()
            def attrs(psd=psd):
                return {x: (list(v) if isinstance(v, list) else v) for x in ('size_classes', 'N', 'fractions', 'number_fractions', 'length_fractions', 'area_fractions', 'fraction_cdf', 'volume_cdf', 'area_cdf', 'length_cdf', 'number_cdf', 'Dis') for v in [getattr(psd, x)]}
            if not hist:
                T.call('attrs', attrs, {}, q=q)
                for _ in range(3):
                    T.call('dpow', psd.di_power, dict(i=rng.randrange(n), power=rng.choice([1, 2, 3, -1, -2, -3, 0, 4, .5])), q=q)
                    P, Q = rng.randint(-3, 6), rng.randint(-3, 6)
                    T.call('mean', psd.mean_size, dict(p=P, q=Q), q=q)
                    T.call('iso', psd.mean_size_ISO, dict(k=rng.randint(-3, 3), r=rng.randint(0, 3)), q=q)
                T.call('mean', psd.mean_size, dict(p=P, q=P), q=q)
                T.call('vssa', lambda psd=psd: psd.vssa, {}, q=q)
                T.call('dn', psd.dn, dict(fraction=rng.uniform(.02, .98)), q=q)
            for b in (hist or ['None']):
                x = rng.choice([rng.log(ds[0]*.5, ds[-1]*1.2), rng.choice(ds), rng.uniform(ds[0], ds[-1]), rng.uniform(ds[-2], ds[-1])])
                T.call('pdf', psd.pdf, N(dict(d=x), b), q=q, fresh=mk().pdf(**N(dict(d=x), b)))
                T.call('cdf', psd.cdf, N(dict(d=x), b), q=q, fresh=mk().cdf(**N(dict(d=x), b)))
                xs = sorted([rng.uniform(ds[1], ds[-1]) for _ in range(5)] + ([0.0, ds[0]*.5, ds[0]] if cut == 'classes' else [])) + [ds[-1]]
                if cut == 'classes' or b in ('None', '3'): T.call('cdfs', psd.cdf_discrete, N(dict(ds=xs), b), q=q)
            if hist: T.call('attrs', attrs, {}, q=q)
    elif k == 'custom':
        from scipy.stats import lognorm
        import math
        for _ in range(6*many):
            a, b, lo, hi, sc = law(rng, 'lognormal', cut, order)
            b = rng.uniform(.2, .6)
            if cut == 'both': lo, hi = a*math.exp(-b*1.5), a*math.exp(b*1.7)
            kw = dict(order=order)
            if cut == 'both': kw.update(d_min=lo, d_max=hi)
            else: kw['d_excessive'] = a*math.exp(b*11)
            psd = M.PSDCustom(lognorm(s=b, scale=a), **kw)
            p = dict(kind='lognormal', a=a, b=b, order=order, lo=lo, hi=hi)
            for n in ('None', '0', '1', '2', '3'):
                if cut == 'none' and abs(int(n if n != 'None' else order) - order) > 2: continue
                x = a*math.exp(b*rng.uniform(-1.2, 1.4))
                T.call('custom', psd.cdf, N(dict(d=x), n), what='cdf', law=p)
                T.call('custom', psd.pdf, N(dict(d=x), n), what='pdf', law=p)
    elif k == 'spacing':
        for _ in range(30*many):
            if cut in ('linear', 'logarithmic'):
                x = rng.log(1e-8, 1)
                T.call('spacing', M.psd_spacing, dict(d_min=x, d_max=x*rng.uniform(1.1, 1000), pts=rng.randint(2, 30), method=cut), how=cut)
            elif cut == 'renard':
                r = rng.choice([5, 10, 20, 40, 80, rng.uniform(3, 100)])
                nm = rng.choice(['R', 'r']) + (repr(r))
                kw = {rng.choice(['d_min', 'd_max']): rng.log(1e-7, 1), 'pts': rng.randint(1, 25), 'method': nm}
                T.call('spacing', M.psd_spacing, kw, how='renard', r=r)
                T.call('refused', M.psd_spacing, rng.choice([dict(d_min=1e-5, d_max=1e-4, method=nm), dict(method=nm), dict(d_min=1e-5, d_max=1e-4, method='BAD'), dict(d_min=1e-5, d_max=1e-4, method='ISO 3310'), dict(d_min=1e-4, method='ASTM E11'), dict(d_max=1e-4), dict(d_max=1e-4, method='ISO 3310-1')]))
            else:
                op = [s.opening for s in M.sieve_spacing_options[OPTS[cut]]]
                x, y = rng.choice([rng.choice(op)*rng.choice([1 - 1e-9, 1 + 1e-9]), rng.log(1e-5, .2)]), rng.choice([rng.choice(op)*rng.choice([1 - 1e-9, 1 + 1e-9]), rng.log(1e-5, .2)])
                T.call('spacing', M.psd_spacing, dict(d_min=min(x, y), d_max=max(x, y), method=OPTS[cut]), how=cut)
    elif k == 'functions':
        for _ in range(120*many):
            for kind, pre in (('lognormal', 'lognormal'), ('ggs', 'Gates_Gaudin_Schuhman'), ('rr', 'Rosin_Rammler')):
                a, b, _, _, sc = law(rng, kind, 'none', 3)
                if kind != 'lognormal' and rng.random() < .4:
                    b = rng.uniform(.5, 3)
                    if kind == 'rr': a = sc**-b
                kw = {'lognormal': dict(d_characteristic=a, s=b), 'ggs': dict(d_characteristic=a, m=b), 'rr': dict(k=a, m=b)}[kind]
                d = sc*rng.choice([rng.log(.1, 3), rng.uniform(.5, 1), 1.0])
                T.call('fn', getattr(M, 'pdf_' + pre), dict(kw, d=d), kind=kind, what='pdf')
                T.call('fn', getattr(M, 'cdf_' + pre), dict(kw, d=d), kind=kind, what='cdf')
                f = getattr(M, 'pdf_' + pre + '_basis_integral')
                n = rng.choice([-3, -2, -1, 1, 2, 3, .5])
                if kind != 'lognormal' and b + n < .3: n = rng.choice([1, 2, 3])
                x, y = sorted([sc*rng.uniform(.2, 1.5), sc*rng.uniform(.2, 1.5)])
                if rng.random() < .3 and (kind != 'lognormal'): x = 0.0
                T.call('basis', lambda d0, d1, n, f=f, **kk: f(d=d1, n=n, **kk) - f(d=d0, n=n, **kk), dict(kw, d0=x, d1=y, n=n), kind=kind, scale=max(abs(f(d=x, n=n, **kw)), abs(f(d=y, n=n, **kw))))
    elif k == 'sieves':
        for nm, o in OPTS.items():
            l = M.sieve_spacing_options[o]
            T.call('series', lambda l=l: [s.opening for s in l], {}, name=nm)
        for nm, dct in (('ISO', M.ISO_3310_1_sieves), ('ASTM', M.ASTM_E11_sieves)):
            for key, s in dct.items():
                T.call('sieve', lambda s=s: dict(opening=s.opening, designation=s.designation), {}, key=key)
                if s.d_wire: T.call('wire', lambda s=s: dict(opening=s.opening, d_wire=s.d_wire), {}, site='wire-%s-%s' % (nm, 'fine' if s.opening < .001 else 'coarse'))
