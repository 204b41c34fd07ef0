from math import *
from fluids import compressible as C


def run(job, rng, T, tier):
    n = job['eq']
    f = getattr(C, n)
    for _ in range(10 if tier == 'quick' else 25):
        T.trace(job['cell'])
        D, L = rng.log(.02, 1.6), rng.log(1, 2e5)
        if n == 'isothermal_gas':
            L = min(L, 2e4)
            fd = rng.log(.008, .1)
            P1 = rng.log(2e5, 2e7)
            ch = fd*L/D
            r = 1 + ch + sqrt(2*ch)
            for _ in range(100):
                r -= (r - log(r) - 1 - ch)/(1 - 1/r)
            Pc = P1/sqrt(r)
            fr = rng.choice([rng.uniform(.01, .99), rng.uniform(.01, .99), rng.log(1e-4, .01), 1 - rng.log(1e-6, 1e-2)])
            P2 = Pc + fr*(P1 - Pc)
            kw = dict(rho=rng.log(.1, 100), fd=fd)
            if ch < 1e-3:
                continue
            # sensitivity of each quantity to the flow
            x = P1/P2
            tol = {'P2': 1e-6/max(1 - r**-.5*x, 1e-6)*max(x - 1, 1e-9) + 1e-9, 'L': 1e-6*(1 + 2*log(x)/ch), 'D': 1e-6, 'P1': 1e-6}
        else:
            P2 = rng.log(1e4, 1e7)
            P1 = P2*(1 + rng.log(1e-4, 10))
            if n == 'Spitzglass_low':
                P2 = 101325 + rng.log(1, 7e3); P1 = P2 + rng.log(1, 7e3)
            kw = dict(SG=rng.log(.4, 2), Tavg=rng.uniform(250, 400))
            for k, v in (('Ts', rng.uniform(270, 300)), ('Ps', rng.uniform(9e4, 1.1e5)), ('Zavg', rng.uniform(.6, 1.1)), ('E', rng.uniform(.7, 1))):
                if rng.random() < .6:
                    kw[k] = v
            if n in ('Muller', 'IGT'):
                kw['mu'] = rng.log(5e-6, 5e-5)
            tol = dict.fromkeys('DL', 1e-6)
            tol['P1'] = tol['P2'] = 1e-6
        v = {'P1': P1, 'P2': P2, 'L': L, 'D': D}
        truth = dict(v)
        qn = 'm' if n == 'isothermal_gas' else 'Q'
        for u in job['path']:
            a = {k: x for k, x in v.items() if k != u}
            if u != 'Q':
                a[qn] = a.pop('Q')
            if rng.random() < .05:   # two unknowns, or none
                b = dict(a)
                if rng.random() < .5:
                    b.pop(rng.choice(sorted(b)))
                else:
                    b[qn if u == 'Q' else u] = truth.get(u, 1.0)
                T.call('refused', f, {**b, **kw})
            x = {'truth': truth[u], 'tol': tol.get(u, 1e-6)} if u in truth else {}
            o = T.call('solve', f, {**a, **kw}, eq=n, u=u, **x)
            if isinstance(o, BaseException):
                break
            v[u] = o
            truth.setdefault(u, o)
