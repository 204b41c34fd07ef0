from math import pi
from fluids import two_phase_voidage as M

NEEDS = {k: v[1] for k, v in M.two_phase_voidage_correlations.items()}
PY = {k: k.replace(' ', '_') for k in ['Thom', 'Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Turner Wallis', 'homogeneous', 'Chisholm Armand', 'Armand', 'Nishino Yamazaki', 'Guzhov', 'Kawahara', 'Baroczy', 'Tandon Varma Gupta', 'Harms', 'Domanski Didion', 'Graham', 'Yashar', 'Huq_Loth', 'Kopte_Newell_Chato', 'Steiner', 'Rouhani 1', 'Rouhani 2', 'Nicklin Wilkes Davidson', 'Gregory_Scott', 'Dix', 'Sun Duffey Peng', 'Xu Fang voidage', 'Woldesemayat Ghajar']}
ARGS = {}
for _k in PY:
    ARGS[_k] = {'Guzhov': 'm D', 'Kawahara': 'D'}.get(_k) or ''
for _k in ('Thom', 'Turner Wallis', 'Baroczy', 'Domanski Didion'): ARGS[_k] = 'mul mug'
for _k in ('Tandon Varma Gupta', 'Harms'): ARGS[_k] = 'mul mug m D'
for _k in ('Graham', 'Yashar'): ARGS[_k] = 'mul mug m D g'
for _k in ('Kopte_Newell_Chato', 'Nicklin Wilkes Davidson', 'Xu Fang voidage'): ARGS[_k] = 'm D g'
for _k in ('Steiner', 'Rouhani 1', 'Rouhani 2', 'Dix'): ARGS[_k] = 'sigma m D g'
ARGS['Sun Duffey Peng'] = 'sigma m D P Pc g'
ARGS['Woldesemayat Ghajar'] = 'sigma m D P angle g'
MU = {'Beattie Whalley': M.Beattie_Whalley, 'Fourar Bories': M.Fourar_Bories, 'Duckler': M.Duckler, 'McAdams': M.McAdams, 'Cicchitti': M.Cicchitti, 'Lin Kwok': M.Lin_Kwok}


def state(rng):
    rhog = rng.log(.2, 200)
    mug = rng.log(5e-6, 5e-5)
    f = dict(rhol=rhog*rng.log(1.1, 2000), rhog=rhog, mul=mug*rng.log(1.5, 1000), mug=mug, sigma=rng.log(1e-3, .1), D=rng.log(2e-5, .5), P=rng.log(5e4, 5e6), Pc=rng.log(5.1e6, 3e7), angle=rng.choice([0, 0.0, 90, -90, rng.uniform(-90, 90)]))
    f['m'] = rng.log(1, 3000)*f['D']**2
    if rng.random() < .3: f['g'] = rng.uniform(1, 20)
    return f


def args(f, law): return {k: f[k] for k in ['x', 'rhol', 'rhog'] + ARGS[law].split() if k in f}


def run(job, rng, T, tier):
    k, law = job['kind'], job['law']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 6
    if k == 'law':
        for _ in range(12*n):
            f = state(rng)
            x = float(job['x'])
            f['x'] = min(max(x*rng.uniform(.5, 2), 1e-5), .99999) if x < .5 else 1 - (1 - x)*rng.uniform(.5, 1.9)
            kw = args(f, law)
            if law == 'Sun Duffey Peng' and rng.random() < .2: kw['Pc'] = None
            if law == 'Woldesemayat Ghajar':
                if rng.random() < .2: kw['P'] = None
                if rng.random() < .3: kw.pop('angle')
            T.call('law', getattr(M, PY[law]), kw, law=law)
    elif k == 'join':
        for _ in range(15*n):
            for e in (1e-9, -1e-9, 1e-3, -1e-3):
                f = state(rng)
                f['x'] = rng.log(.01, .9)
                if law == 'Kawahara':
                    for d in (250e-6, 75e-6): T.call('law', M.Kawahara, args(dict(f, D=d*(1 + e)), law), law=law)
                    continue
                if law == 'Tandon Varma Gupta': f['m'] = 1125*(1 + e)*f['mul']*f['D']*pi/4
                if law == 'Domanski Didion':
                    v = 10*(1 + e)/((f['rhog']/f['rhol'])**.5*(f['mul']/f['mug'])**.1)
                    v = v**(1/.9)
                    f['x'] = 1/(1 + v)
                if law in ('Graham', 'Kopte_Newell_Chato'):
                    x, g = f['x'], f.get('g', 9.80665)
                    F = (.01032 if law == 'Graham' else .044)*(1 + e)
                    f['m'] = F*((1 - x)*f['rhog']**2*g*f['D']/x**3)**.5*pi/4*f['D']**2
                T.call('law', getattr(M, PY[law]), args(f, law), law=law)
        for D in (250e-6, 75e-6) if law == 'Kawahara' else ():
            T.call('law', M.Kawahara, dict(x=.2, rhol=800., rhog=2.5, D=D), law=law)
    elif k == 'ends':
        for _ in range(10*n):
            f = state(rng)
            for x in (0, 1, 0.0, 1.0):
                for l in ('homogeneous', 'Armand', 'Chisholm Armand'):
                    T.call('law', getattr(M, PY[l]), args(dict(f, x=x), l), law=l)
                T.call('pick', M.liquid_gas_voidage, dict(x=x, rhol=f['rhol'], rhog=f['rhog']))
            for l in ARGS:
                if l in ('homogeneous', 'Armand', 'Chisholm Armand', 'Dix', 'Woldesemayat Ghajar', 'Yashar', 'Graham', 'Kopte_Newell_Chato', 'Nishino Yamazaki', 'Kawahara', 'Harms'): continue
                f['x'] = 1 - 1e-12 if l in ('Tandon Varma Gupta',) else rng.choice([1e-12, 1 - 1e-9])
                T.call('law', getattr(M, PY[l]), args(f, l), law=l)
    elif k == 'pick':
        for _ in range(2*n):
            f = state(rng)
            f['x'] = rng.uniform(.01, .99)
            kw = {x: v for x, v in f.items() if x in job['given'] or x in ('x', 'rhol', 'rhog', 'angle', 'g')}
            for x in ('D', 'm', 'mul', 'mug', 'sigma', 'P', 'Pc'):
                if x not in kw and rng.random() < .3: kw[x] = None
            if rng.random() < .4: kw.pop('angle')
            if not law:
                T.call('list', M.liquid_gas_voidage_methods, kw if rng.random() < .5 else dict(kw, check_ranges=True))
                if rng.random() < .5: kw['Method'] = None
            else: kw['Method'] = law
            T.call('pick', M.liquid_gas_voidage, kw)
    elif k == 'unknown':
        f = dict(x=.1, rhol=915., rhog=2.67, mul=180e-6, mug=14e-6, sigma=.0487, D=.05, P=1e6, Pc=2e7, m=1.)
        for s in ('thom', 'Turner_Wallis', '', 'Rouhani', 'Homogeneous'): T.call('pick', M.liquid_gas_voidage, dict(f, Method=s))
        for s in ('mcadams', 'Lin_Kwok', ''): T.call('mu', M.gas_liquid_viscosity, dict(x=.1, mul=1e-3, mug=1e-5, rhol=900., rhog=3., Method=s))
    elif k == 'mu':
        for _ in range(20*n):
            f = state(rng)
            x = rng.choice([0, 1, 0.0, 1.0, rng.random(), rng.log(1e-6, 1), 1 - rng.log(1e-6, 1)])
            kw = dict(x=x, mul=f['mul'], mug=f['mug'])
            for v in ('rhol', 'rhog'):
                if v in job['given']: kw[v] = f[v]
                elif rng.random() < .4: kw[v] = None
            if law: kw['Method'] = law
            elif rng.random() < .5: kw['Method'] = None
            T.call('mu', M.gas_liquid_viscosity, kw)
            if law:
                kw = dict(x=x, mul=f['mul'], mug=f['mug'])
                if law in ('Beattie Whalley', 'Fourar Bories', 'Duckler'): kw.update(rhol=f['rhol'], rhog=f['rhog'])
                T.call('mulaw', MU[law], kw, law=law)
    elif k == 'muhist':
        # asking in any order, and changing the answer received, never changes later answers
        for _ in range(10*n):
            kw = {v: (rng.log(1, 1000) if v in job['given'] else None) for v in ('rhol', 'rhog') if v in job['given'] or rng.random() < .5}
            out = T.call('mulist', M.gas_liquid_viscosity_methods, kw)
            if rng.random() < .5: T.call('mulist', M.gas_liquid_viscosity_methods, dict(rhol=900., rhog=1.))
            T.call('mulist', M.gas_liquid_viscosity_methods, dict(kw, check_ranges=True))
    elif k == 'density':
        for _ in range(60*n):
            f = state(rng)
            al = rng.choice([0, 1, rng.random(), rng.log(1e-6, 1)])
            T.call('density', M.density_two_phase, dict(alpha=al, rhol=f['rhol'], rhog=f['rhog']))
            T.call('alpha', M.two_phase_voidage_experimental, dict(rho_lg=f['rhol'] + (f['rhog'] - f['rhol'])*al, rhol=f['rhol'], rhog=f['rhog']))
    elif k == 'xtt':
        for _ in range(60*n):
            f = state(rng)
            kw = dict(x=rng.random(), rhol=f['rhol'], rhog=f['rhog'], mul=f['mul'], mug=f['mug'])
            for v in ('pow_x', 'pow_rho', 'pow_mu'):
                if rng.random() < .4: kw[v] = rng.uniform(.05, 1)
            if rng.random() < .5: kw['n'] = rng.choice([.2, .25, 0, 0.0, 1, None, rng.random()])
            T.call('xtt', M.Lockhart_Martinelli_Xtt, kw)
