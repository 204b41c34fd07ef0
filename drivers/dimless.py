from fluids import core

DIM = dict(V=(0,1,-1,0), D=(0,1,0,0), L=(0,1,0,0), rho=(1,-3,0,0), mu=(1,-1,-1,0), nu=(0,2,-1,0), Cp=(0,2,-2,-1), k=(1,1,-3,-1), alpha=(0,2,-1,0),
    t=(0,0,1,0), x=(0,1,0,0), sigma=(1,0,-2,0), c=(0,1,-1,0), rhol=(1,-3,0,0), rhog=(1,-3,0,0), g=(0,1,-2,0), mul=(1,-1,-1,0), path=(0,1,0,0), beta=(0,0,0,-1),
    T1=(0,0,0,1), T2=(0,0,0,1), Pr=(0,0,0,0), Gr=(0,0,0,0), rho1=(1,-3,0,0), rho2=(1,-3,0,0), f=(0,0,-1,0), h=(1,0,-3,-1), dP=(1,-1,-2,0), P=(1,-1,-2,0),
    Psat=(1,-1,-2,0), dT=(0,0,0,1), Hvap=(0,2,-2,0), Te=(0,0,0,1), N=(0,0,-1,0), F=(1,1,-2,0), A=(0,2,0,0), Dp=(0,1,0,0), rhop=(1,-3,0,0), rhof=(1,-3,0,0),
    Re=(0,0,0,0), fd=(0,0,0,0), G=(1,-2,-1,0), q=(1,0,-3,0), Di=(0,1,0,0), roughness=(0,1,0,0))
RNG = dict(rho=(0.1, 2e4), mu=(1e-6, 10), nu=(1e-7, 1e-1), k=(1e-3, 500), Cp=(100, 1e4), alpha=(1e-8, 1e-3), sigma=(1e-3, 0.5), rhop=(1, 2e4), rhof=(1, 2e4),
           P=(1, 1e7), Psat=(1, 1e7), T1=(1, 2e3), T2=(1, 2e3), Re=(1, 1e7), fd=(1e-3, 0.1))


def dim(n, a):
    if n in ('Peclet_mass', 'Fourier_mass', 'Schmidt', 'Lewis', 'Sherwood') and a == 'D':
        return (0, 2, -1, 0)
    if a == 'K':
        return (0, 1, -1, 0) if n == 'Sherwood' else (0, 2, 0, 0)
    if n == 'Power_number' and a == 'P':
        return (1, 2, -3, 0)
    return DIM[a]


def value(n, a, rng, kw):
    if a in ('squared', 'heavy'):
        return rng.random() < 0.6
    v = rng.log(*RNG.get(a, (1e-3, 1e3)))
    if a in ('rhog', 'rho2'):   # below the heavier density
        v = kw[{'rhog': 'rhol', 'rho2': 'rho1'}[a]]*rng.uniform(0.001, 0.999)
    return v


def run(job, rng, T, tier):
    n, form, units = job['n'], job['form'], job['units']
    fn = getattr(core, n)
    order = sorted(form, key=lambda a: (a in ('rhog', 'rho2'), a))
    for _ in range(6 if tier == 'quick' else 12):
        T.trace(job['cell'])
        kw = {}
        for a in order:
            kw[a] = value(n, a, rng, kw)
        if job['refused']:
            T.call(n, fn, kw, refused=True)
            continue
        T.call(n, fn, kw)
        if n == 'Bond':
            T.call(n, core.Eotvos, kw)
        if n == 'Prandtl':
            T.call(n, core.Pr, kw)
        if any(units):
            s = [rng.log(0.1, 10)**u for u in units]
            kw2 = dict(kw)
            for a in kw:
                if isinstance(kw[a], bool):
                    continue
                for b, p in zip(s, dim(n, a)):
                    kw2[a] = kw2[a]*b**p
            T.call(n, fn, kw2)
    if n == 'relative_roughness':
        for _ in range(20):
            T.trace()
            D = rng.log(1e-4, 10)
            T.call(n, lambda D, roughness: core.relative_roughness(D), {'D': D, 'roughness': 1.52e-6})
            T.call('thermal_diffusivity', rng.choice([core.thermal_diffusivity, core.alpha]), {'k': rng.log(1e-3, 500), 'rho': rng.log(.1, 2e4), 'Cp': rng.log(100, 1e4)})
            T.call('c_ideal_gas', core.c_ideal_gas, {'T': rng.log(10, 3000), 'k': rng.uniform(1.01, 1.9), 'MW': rng.log(1, 500)})
            T.call('gravity', core.gravity, {'latitude': rng.choice([0., 90., -90., 45., rng.uniform(-90, 90)]), 'H': rng.choice([0., 1e4, rng.log(1, 1e5)])})
            kw = {'K': rng.log(1e-3, 1e3), 'rho': rng.log(.1, 2e4), 'V': rng.choice([1, -1])*rng.log(1e-3, 1e2)}
            T.call('dP_from_K', core.dP_from_K, kw)
            del kw['rho']
            if rng.random() < .5: kw['g'] = rng.log(1, 20)
            T.call('head_from_K', core.head_from_K, kw)
