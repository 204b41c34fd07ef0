from math import pi, sqrt
from fluids import two_phase as M

CLASSES = [(1, 500), (500, 2000), (2100, 2e4), (2e4, 1e6)]
TENS = {"Kim_Mudawar", "Friedel", "Hwang_Kim", "Mishima_Hibiki", "Tran", "Xu_Fang", "Zhang_Hibiki_Mishima", "Chen_Friedel", "Zhang_Hibiki_Mishima adiabatic gas", "Zhang_Hibiki_Mishima flow boiling"}
NOROUGH = {"Kim_Mudawar", "Lockhart_Martinelli", "Lombardi_Pedrocchi"}


def fluid(rng):
    rhog = rng.log(.2, 100)
    mug = rng.log(5e-6, 5e-5)
    return dict(rhol=rhog*rng.log(3, 2000) if rng.random() < .5 else rng.uniform(500, 1500), rhog=rhog, mul=mug*rng.log(2, 1000), mug=mug, sigma=rng.log(1e-3, .1), D=rng.log(1e-4, .5))


def other(rng, f, law):
    if law not in NOROUGH and rng.random() < .6: f['roughness'] = f['D']*rng.log(1e-6, .04)
    if rng.random() < .6: f['L'] = rng.log(.1, 1000)
    return f


def call(T, law, f, x=None):
    kw = {k: v for k, v in f.items() if k not in ('P', 'Pc', 'angle', 'sigma')}
    if law in TENS or law == 'Lombardi_Pedrocchi': kw['sigma'] = f['sigma']
    if law == 'Lombardi_Pedrocchi': kw.pop('mul'), kw.pop('mug')
    if law == 'Zhang_Webb':
        kw.update(P=f['P'], Pc=f['Pc'])
        kw.pop('rhog'), kw.pop('mug')
    fn = law
    if law == 'Chisholm rough': fn, kw['rough_correction'] = 'Chisholm', True
    if law.startswith('Zhang_Hibiki_Mishima '): fn, kw['flowtype'] = 'Zhang_Hibiki_Mishima', law[21:]
    T.call('law', getattr(M, fn), kw, law=law)


def boundary(rng, fn, a, b, tol=1e-7):
    """Bisect between two states on either side of a change of answer."""
    for _ in range(80):
        if abs(b - a) < tol*abs(a): break
        c = sqrt(a*b)
        if fn(c) == fn(a): a = c
        else: b = c
    return a, b


def run(job, rng, T, tier):
    k, law, rl, rg = job['kind'], job['law'], job['rl'], job['rg']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 6
    if k == 'law':
        for _ in range(12*n):
            f = fluid(rng)
            a, b = rng.log(*CLASSES[rl - 1]), rng.log(*CLASSES[rg - 1])
            if rng.random() < .2: a = rng.choice([2000*(1 + 1e-9), 2000*(1 - 1e-9), 20000*(1 + 1e-9), 20000*(1 - 1e-9)])
            if rng.random() < .2: b = rng.choice([2000*(1 + 1e-9), 2000*(1 - 1e-9), 20000*(1 + 1e-9), 20000*(1 - 1e-9)])
            ml, mg = a*f['mul']*f['D']*pi/4, b*f['mug']*f['D']*pi/4
            f.update(m=ml + mg, x=mg/(ml + mg), P=rng.log(1e5, 5e6), Pc=rng.log(5.1e6, 3e7))
            call(T, law, other(rng, f, law))
    elif k == 'limit':
        for _ in range(8*n):
            f = fluid(rng)
            f.update(m=rng.log(1, 2000)*f['D']**2, P=rng.log(1e5, 5e6), Pc=rng.log(5.1e6, 3e7))
            other(rng, f, law)
            for x in (0, 1, 0.0, 1.0):
                if law == 'Zhang_Webb' or law != 'x': call(T, law, dict(f, x=x))
    elif k == 'chisholm':
        for _ in range(200):
            f = fluid(rng)
            G = {1: (500, 600), 2: (1900,), 3: ()}[rl]
            G = rng.choice(G)*rng.choice([1 - 1e-9, 1 + 1e-9, .9, 1.1]) if G else rng.log(50, 5000)
            f.update(m=G*pi/4*f['D']**2, x=rng.uniform(.01, .99))
            # pick the class of Gamma
            q = f['rhol']/f['rhog']
            gam = {1: rng.log(1.2, 9.4), 2: rng.log(9.6, 27.9), 3: rng.log(28.1, 100), 4: rng.choice([9.5, 28.0])*rng.choice([1 - 1e-4, 1 + 1e-4])}[rg]
            from fluids.friction import friction_factor
            for _ in range(60):
                lo, go = friction_factor(Re=G*f['D']/f['mul'], eD=0), friction_factor(Re=G*f['D']/f['mug'], eD=0)
                g = sqrt(go/lo*f['rhol']/f['rhog'])
                f['rhog'] *= (g/gam)**2
            if f['rhog'] < f['rhol']*.95: call(T, law, dict(f))
            if len(T.events if hasattr(T, 'events') else []) > 20*n: break
    elif k == 'bb':
        # rl: class of the no-slip holdup, rg: regime band
        for _ in range(40*n):
            f = fluid(rng)
            f['D'] = rng.log(.01, 1)
            lam = {1: rng.log(1e-3, .0099), 2: rng.log(.0101, .1), 3: rng.log(.1, .399), 4: rng.uniform(.401, .95), 5: rng.choice([.01, .4])*rng.choice([1 - 1e-7, 1 + 1e-7])}[rl]
            L1, L2, L3, L4 = 316*lam**.302, .0009252*lam**-2.4684, .1*lam**-1.4516, .5*lam**-6.738
            top = L1 if lam < .4 else L4
            e = rng.choice([1e-7, .01, .3])
            Fr = {1: min(L1, L2)*rng.log(1e-4, 1), 2: L2 + (L3 - L2)*rng.choice([rng.uniform(.01, .99), 1e-6, 1 - 1e-6]), 3: L3*(1 + e) if rng.random() < .5 else top*(1 - e), 4: top*(1 + e) if rng.random() < .5 else top*rng.log(1, 1e3)}[rg]
            g = 9.80665
            kw = {}
            if rng.random() < .3: g = kw['g'] = rng.choice([1.62, 9.81, 3.71])
            Vm = sqrt(Fr*g*f['D'])
            A = pi/4*f['D']**2
            ml, mg = lam*Vm*A*f['rhol'], (1 - lam)*Vm*A*f['rhog']
            f.update(m=ml + mg, x=mg/(ml + mg), P=rng.log(1e5, 1e7), angle=rng.choice([0, 0.0, 90, -90, rng.uniform(0, 90), rng.uniform(-90, 0), 1e-3, -1e-3]))
            other(rng, f, law)
            if rng.random() < .6: kw['acceleration'] = rng.random() < .5
            if kw.get('acceleration', True) and f['x']*f['m']/f['rhog']/A*Vm*f['rhol']/f['P'] > .5: kw['acceleration'] = False
            T.call('bb', M.Beggs_Brill, dict(f, **kw))
    elif k == 'dispatch':
        for _ in range(n):
            f = fluid(rng)
            f.update(m=rng.log(1, 2000)*f['D']**2, x=rng.uniform(.01, .99), P=rng.log(1e6, 5e6), Pc=rng.log(5.1e6, 3e7), angle=rng.uniform(-90, 90))
            kw = {x: v for x, v in f.items() if x in job['given'] or x in ('m', 'x', 'rhol', 'D')}
            for x in ('rhog', 'mul', 'mug', 'sigma', 'P', 'Pc', 'angle'):
                if x not in kw and rng.random() < .3: kw[x] = None
            other(rng, kw, '')
            if not law:
                T.call('list', M.two_phase_dP_methods, kw if rng.random() < .5 else dict(kw, check_ranges=True))
                if rng.random() < .5: kw['Method'] = None
            else: kw['Method'] = law
            T.call('pick', M.two_phase_dP, kw)
    elif k == 'unknown':
        f = dict(m=.6, x=.1, rhol=915., rhog=2.67, mul=180e-6, mug=14e-6, sigma=.0487, D=.05, P=1e6, Pc=2e7, angle=0.)
        for s in ('friedel', 'Beggs_Brill', '', 'Chisholm Rough', 'Fake'): T.call('refused', M.two_phase_dP, dict(f, Method=s))
    elif k == 'flowtype':
        f = dict(m=.0005, x=.1, rhol=915., rhog=2.67, mul=180e-6, mug=14e-6, sigma=.0487, D=.003)
        for s in ('vapor', '', 'adiabatic', 'boiling'): T.call('refused', M.Zhang_Hibiki_Mishima, dict(f, flowtype=s))
    elif k == 'lmrec':
        for _ in range(40*n):
            f = fluid(rng)
            c = rng.log(500, 5000)
            a, b = c*rng.choice([.5, 1.5, 1 - 1e-9, 1 + 1e-9]), c*rng.choice([.5, 1.5, 1 - 1e-9, 1 + 1e-9])
            ml, mg = a*f['mul']*f['D']*pi/4, b*f['mug']*f['D']*pi/4
            f.update(m=ml + mg, x=mg/(ml + mg))
            f.pop('sigma')
            T.call('law', M.Lockhart_Martinelli, dict(f, Re_c=c), law='Lockhart_Martinelli')
    elif k == 'accel':
        for _ in range(60*n):
            kw = dict(m=rng.log(.01, 10), D=rng.log(.01, 1), xi=rng.random(), xo=rng.random(), alpha_i=rng.uniform(.01, .99), alpha_o=rng.uniform(.01, .99), rho_li=rng.uniform(500, 1500), rho_gi=rng.log(.5, 100))
            if rng.random() < .5: kw['rho_lo'] = rng.uniform(500, 1500)
            if rng.random() < .5: kw['rho_go'] = rng.log(.5, 100)
            T.call('accel', M.two_phase_dP_acceleration, kw)
            T.call('daccel', M.two_phase_dP_dz_acceleration, dict(m=kw['m'], D=kw['D'], x=rng.random(), rhol=kw['rho_li'], rhog=kw['rho_gi'], dv_dP_l=-rng.log(1e-13, 1e-11), dv_dP_g=-rng.log(1e-9, 1e-5), dx_dP=rng.choice([-1, 1])*rng.log(1e-9, 1e-6), dP_dL=rng.choice([-1, 1])*rng.log(1, 1e5), dA_dL=rng.choice([0, rng.uniform(-.01, .01)])))
    elif k == 'gravity':
        for _ in range(60*n):
            kw = dict(angle=rng.choice([0, 90, -90, rng.uniform(-90, 90)]), z=rng.log(.1, 1000), alpha_i=rng.random(), rho_li=rng.uniform(500, 1500), rho_gi=rng.log(.5, 100))
            for x, v in (('alpha_o', rng.random()), ('rho_lo', rng.uniform(500, 1500)), ('rho_go', rng.log(.5, 100)), ('g', rng.uniform(1, 20))):
                if rng.random() < .5: kw[x] = v
            T.call('gravity', M.two_phase_dP_gravitational, kw)
            kw = dict(angle=kw['angle'], alpha=rng.random(), rhol=kw['rho_li'], rhog=kw['rho_gi'])
            if rng.random() < .5: kw['g'] = rng.uniform(1, 20)
            T.call('dgravity', M.two_phase_dP_dz_gravitational, kw)
    elif k in ('taitel', 'mandhane'):
        for i in range(150*n):
            f = fluid(rng)
            f['D'] = rng.log(.01, .5)
            if k == 'taitel':
                f.pop('sigma')
                f['angle'] = rng.choice([0, rng.uniform(0, 10), rng.uniform(-80, 80)])
                if rng.random() < .3: f['roughness'] = f['D']*rng.log(1e-6, .02)
                if rng.random() < .2: f['g'] = rng.uniform(1, 20)
                fn = M.Taitel_Dukler_regime
            else: fn = M.Mandhane_Gregory_Aziz_regime
            x = rng.choice([rng.random(), rng.log(1e-4, 1), 1 - rng.log(1e-3, 1)])
            lo, hi = 1e-2*f['D']**2, 1e5*f['D']**2
            ms = sorted(rng.log(lo, hi) for _ in range(4))
            if k == 'mandhane' and rng.random() < .5:
                v = .3048*rng.choice([.1, .2, 1.15, 4.8, .3, .56, 1, 2.5])*rng.choice([1 - 1e-6, 1 + 1e-6])
                ms[0] = v*f['rhol']*pi/4*f['D']**2/(1 - x) if x < 1 else ms[0]
            def ok(m): return k == 'mandhane' or 10**-1.8 < fn(m=m, x=x, **f)[1] < 10**1.69
            ms = [m for m in ms if ok(m)]
            for m in ms: T.call(k, fn, dict(f, m=m, x=x))
            for a, b in zip(ms, ms[1:]):
                reg = lambda m: fn(m=m, x=x, **f)[0]
                if reg(a) != reg(b):
                    for m in boundary(rng, reg, a, b, 1e-5):
                        if ok(m): T.call(k, fn, dict(f, m=m, x=x))
