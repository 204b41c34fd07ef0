from fluids import atmosphere as A


def fields(o):
    d = dict(o.__dict__)
    if hasattr(o, 'components'): d['components'] = list(o.components)
    d.pop('geomagnetic_disturbance_indices', None)
    return d


def call(T, *p, **k):
    T.call(*p, **k)
    T.cell = None


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 6
    std = lambda **kw: A.ATMOSPHERE_1976(**kw)
    if m == 'std':
        lo, hi = float(job['lo']), float(job['hi'])
        part = job['part']
        r0 = 6356766.0
        for i in range(8*n):
            h = rng.uniform(lo, hi)
            if i < 2: h = lo + (hi - lo)*[1e-6, 1 - 1e-6][i]
            Z = r0*h/(r0 - h)
            if i == 2 and lo <= 0: Z = 0.0
            if i == 2 and lo == 84852.0: Z = 86000.0
            kw = dict(Z=Z)
            if part == 'offset': kw['dT'] = 0.0 if i == 0 else rng.uniform(-5, 5)
            if part == 'warm': kw['dT'] = rng.uniform(5, 60)
            if part == 'cold': kw['dT'] = -rng.uniform(5, 60)
            call(T, 'std', std, kw, post=fields)
    elif m == 'property':
        for _ in range(8*n):
            t, p = rng.uniform(120, 400), rng.log(.1, 2e5)
            call(T, 'gravity', A.ATMOSPHERE_1976.gravity, {'Z': rng.uniform(-5000, 86000)})
            call(T, 'density', A.ATMOSPHERE_1976.density, {'T': t, 'P': p})
            call(T, 'sonic', A.ATMOSPHERE_1976.sonic_velocity, {'T': t})
            call(T, 'viscosity', A.ATMOSPHERE_1976.viscosity, {'T': t})
            call(T, 'conductivity', A.ATMOSPHERE_1976.thermal_conductivity, {'T': t})
    elif m == 'drop':
        lo, hi = {'low': (6e4, 1.08e5), 'mid': (2e4, 6e4), 'high': (500, 2e4)}[job['c']]
        for _ in range(4*n):
            call(T, 'drop', A.ATMOSPHERE_1976.pressure_integral, dict(T1=rng.uniform(220, 320), P1=rng.log(lo, hi), dH=rng.choice([-1, 1, 1, 1])*rng.log(5, 400)))
    elif m == 'path':
        lo, hi = {'up': (85, 90), 'steep': (30, 85), 'low': (5, 30)}[job['a']]
        c = job['c']
        for i in range((3 if c == 'standard' else 6)*n):
            r, s = rng.log(.1, 10), rng.log(4000, 20000)
            kw = dict(angle=90.0 if job['a'] == 'up' and i == 0 else rng.uniform(lo, hi))
            if rng.random() < .5: kw['R_planet'] = rng.uniform(3e6, 8e6)
            if rng.random() < .5: kw['RI'] = 1 + rng.log(1e-5, 3e-4)
            if rng.random() < .5 or c == 'linear': kw['H_max'] = rng.uniform(.2, 1)*s if c == 'linear' else rng.uniform(2e4, 8e4)
            f = {'constant': lambda h, r=r: r, 'exponential': lambda h, r=r, s=s: r*__import__('math').exp(-h/s), 'linear': lambda h, r=r, s=s: r*(1 - h/s), 'standard': lambda h: A.ATMOSPHERE_1976(h).rho}[c]
            call(T, 'path', lambda f=f, **kw: A.airmass(f, **kw), kw, kind=c, rho0=r, scale=s)
    else:
        lo, hi = float(job['lo']), float(job['hi'])
        for i in range(2*n):
            z = rng.uniform(lo, hi)
            if i == 0 and rng.random() < .7: z = hi
            kw = dict(Z=z*1e3)
            if z == 72.5: kw['Z'] = 72500.0
            o = dict(latitude=rng.choice([0.0, 90.0, -90.0, 45.0, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-90, 90)]), longitude=rng.uniform(-180, 360), day=rng.randrange(0, 367), seconds=rng.uniform(0, 86400),
                     f107=rng.uniform(65, 300), f107_avg=rng.uniform(65, 300))
            for k in o:
                if rng.random() < .85: kw[k] = o[k]
            if job['hist']: kw['geomagnetic_disturbance_indices'] = [rng.choice([4.0, rng.uniform(0, 300)]) for _ in range(7)]
            call(T, 'msis', A.ATMOSPHERE_NRLMSISE00, kw, post=fields)
