from fluids import drag as M
from fluids.constants import g


def system(rng, Re_lo, Re_hi, method):
    """A sphere whose terminal Reynolds number lies in the given class."""
    Re = rng.log(Re_lo, Re_hi)
    if rng.random() < .3: Re = rng.choice([Re_lo*(1 + 1e-6), Re_hi*(1 - 1e-6)])
    rho = rng.choice([1.2, 1000.0, rng.log(.05, 2000)])
    rhop = rho*(1 + rng.choice([rng.log(1e-3, 1), rng.log(.5, 10), rng.log(10, 5000) if rho < 50 else 1.65]))
    mu = rng.choice([1.8e-5, 1e-3, rng.log(5e-6, 1)])
    Cd = M.drag_sphere(Re, Method=method)
    # Re^2 Cd = 4/3 g D^3 (rhop-rho) rho/mu^2
    D = (Re*Re*Cd*mu*mu*.75/(g*(rhop - rho)*rho))**(1/3.)
    return dict(D=D, rhop=rhop, rho=rho, mu=mu)


def run(job, rng, T, tier):
    k, m, lo, hi = job['kind'], job['method'] or None, float(job['Re']), float(job['next'])
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 6
    def meth(kw):
        if m is not None or rng.random() < .5: kw['Method'] = m
        return kw
    if k == 'cd':
        for Re in [lo, hi, lo*(1 - 1e-9), lo*(1 + 1e-9)] + [rng.log(lo, hi) for _ in range(4*n)] + ([rng.log(1e-4, 1e-3), rng.log(1e6, 1e7)] if m in (None, 'Barati_high', 'Clift', 'Stokes', 'Rouse') else []):
            if m:
                T.call('cd', getattr(M, m), dict(Re=Re), corr=m)
                T.call('pick', M.drag_sphere, dict(Re=Re, Method=m), direct=getattr(M, m)(Re))
            else:
                T.call('pick', M.drag_sphere, meth(dict(Re=Re)), direct=None)
                kw = dict(Re=Re)
                if rng.random() < .7: kw['check_ranges'] = rng.random() < .6
                T.call('list', M.drag_sphere_methods, kw)
    elif k == 'song':
        for _ in range(60*n):
            kw = dict(Re=rng.log(1e-3, 1e3))
            if rng.random() < .8: kw['sphericity'] = rng.uniform(.1, 1)
            if rng.random() < .8: kw['S'] = rng.uniform(.1, 2)
            T.call('cd', M.Song_Xu, kw, corr='Song_Xu')
    elif k == 'unknown':
        for f, es in ((M.Morsi_Alexander, [.1, 1, 10, 100, 1000, 5000, 10000]), (M.Clift, [.01, 20, 260, 1500, 12000, 44000, 338000, 400000]), (M.drag_sphere, [.01, .1, 212963.26847812787])):
            for x in es: T.call('join', lambda a, b, f=f: [f(a), f(b)], dict(a=x*(1 - 1e-9), b=x*(1 + 1e-9)), site='join-%s-%g' % (f.__name__, x))
        for s in ('', 'stokes', 'BARATI', 'Barati-high', 'Fake', 'Clift_Gauvin '):
            T.call('refused', M.drag_sphere, dict(Re=rng.log(.001, 1e6), Method=s))
    elif k == 'terminal':
        a, b = float(job['from']), float(job['to'])
        for _ in range(5*n):
            T.call('terminal', M.v_terminal, meth(system(rng, a, b, m)))
    elif k == 'time':
        for _ in range(80*n):
            s = system(rng, 1e-5, .01, None)
            v = g*s['D']**2*(s['rhop'] - s['rho'])/(18*s['mu'])
            s['V0'] = rng.choice([0.0, v*rng.uniform(0, .95), v*rng.log(1.05, 100), -v*rng.random()])
            if rng.random() < .7: s['tol'] = rng.choice([rng.log(1e-13, 1e-2), 1e-9, 1e-15, 1e-17, 1e-18])
            T.call('time', M.time_v_terminal_Stokes, s)
    elif k == 'laminar':
        for _ in range(80*n):
            stokes = rng.random() < .5
            s = system(rng, 1e-5, .0099 if not stokes else 10, None)
            v = g*s['D']**2*(s['rhop'] - s['rho'])/(18*s['mu'])
            tau = s['D']**2*s['rhop']/(18*s['mu'])
            Vm = .0099*s['mu']/(s['rho']*s['D'])
            V = rng.choice([0.0, v*rng.random(), min(Vm, v*rng.uniform(1, 5)), -v*rng.random()])
            if stokes: s['Method'] = 'Stokes'
            if V: s['V'] = V
            s['t'] = tau*rng.choice([rng.log(.02, 30), rng.log(30, 600), rng.log(720, 1e5)])
            if rng.random() < .7: s['distance'] = rng.random() < .8
            T.call('laminar', M.integrate_drag_sphere, s)
    elif k == 'fired':
        for _ in range(60*n):
            s = system(rng, 1e-5, rng.choice([.009, .009, 1e3]), None)
            Ri = rng.log(.012, 3e4)
            V = Ri*s['mu']/(s['rho']*s['D'])
            vt = M.v_terminal(**s)
            while V < 2.0*vt: V *= 3
            acc = .75*s['rho']/(s['D']*s['rhop'])*V*V*M.drag_sphere(s['rho']*V*s['D']/s['mu']) - g*(s['rhop'] - s['rho'])/s['rhop']
            s.update(V=V, t=V/acc*rng.uniform(.03, .9))
            if V < .01: continue   # absolute tolerance of the integrator
            if rng.random() < .7: s['distance'] = rng.random() < .8
            T.call('fired', M.integrate_drag_sphere, meth(s), vinf=vt)
            acc += 2*g*(s['rhop'] - s['rho'])/s['rhop']   # upwards instead
            T.call('thrown', M.integrate_drag_sphere, meth(dict(s, V=-V, t=V/acc*rng.uniform(.03, .9))))
    elif k in ('fall', 'hold'):
        top = min(float(job['hi']), 1e5)
        bot = max(.05, float(job['lo'])*1.5)
        for _ in range(7*n if m else 40*n):
            while True:     # the integrator's absolute tolerance is 1.5e-8 m/s
                s = system(rng, bot, top*.5, m)
                vt = M.v_terminal(**dict(s, Method=m))
                if vt > .03: break
            c1 = g*(s['rhop'] - s['rho'])/s['rhop']
            ts = vt/c1
            if k == 'hold':
                T.call('hold', M.integrate_drag_sphere, dict(s, V=vt, t=rng.log(.1, 100)*ts, distance=True), vinf=vt)
                continue
            V = rng.choice(([0.0, 0.0] if m != 'Almedeij' else []) + [vt*rng.uniform(.05, .9), vt*rng.uniform(1.1, 1.9)])
            if V: s['V'] = V
            s['t'] = ts*rng.log(.01, 20)
            if rng.random() < .7: s['distance'] = rng.random() < .8
            T.call('fall', M.integrate_drag_sphere, meth(s), vinf=vt)
