from math import sqrt
from fluids import control_valve as V
import fluids


def opts(job, rng, kw):
    if not job['choke']: kw['allow_choked'] = False
    elif rng.random() < .3: kw['allow_choked'] = True
    if not job['laminar']: kw['allow_laminar'] = False
    elif rng.random() < .3: kw['allow_laminar'] = True
    if rng.random() < .7: kw['full_output'] = True
    return kw


def fittings(job, rng):
    """Diameters; d is set from the required coefficient later through the ratio C/d^2."""
    f = job['fit']
    d = 1.0
    if f == 'line size': return d, d, d
    if f == 'reduced':
        D = d*rng.uniform(1.01, 2.2)
        return D, D, d
    if f == 'reduced out': return (d*rng.choice([1.0, rng.uniform(1.0, 1.5)]), d*rng.uniform(1.05, 2.5), d)
    D = d*rng.uniform(.9, .99)     # the valve is larger than the line
    return D, D*rng.uniform(.9, 1.2), d


def liquid(job, rng, T):
    Pc = rng.log(2e6, 2.3e7)
    Psat = Pc*rng.log(1e-4, .3)
    FL = rng.choice([float(job['FL']), rng.uniform(.5, .99)]); Fd = float(job['Fd'])
    FF = .96 - .28*sqrt(Psat/Pc)
    P1 = Psat*rng.uniform(1.3, 20)
    lim = FL*FL*(P1 - FF*Psat)
    g = job['regime']
    dP = lim*{'normal': rng.uniform(.1, .9), 'near choke': rng.choice([1 - 1e-6, 1 + 1e-6, rng.uniform(.9, 1.1)]), 'choked': rng.uniform(1.02, 1.6), 'laminar': rng.uniform(.05, 1.3), 'creeping': rng.uniform(.05, .9), 'tiny drop': rng.log(1e-4, .05)}[g]
    dP = min(dP, P1*.98)
    rho = rng.log(300, 3000)
    Q = rng.log(1e-4, 1)
    kw = dict(rho=rho, Psat=Psat, Pc=Pc, P1=P1, P2=P1 - dP, Q=Q, mu=rng.log(1e-5, 1e-3))
    if not (rng.random() < .2 and abs(FL - .9) < 1e-12): kw['FL'] = FL
    if not (rng.random() < .2): kw['Fd'] = Fd
    else: Fd = 1.0
    if job['fit'] != 'none':
        C0 = Q*3600/.1*sqrt(rho/999.1/(dP/1000))
        D1, D2, d = fittings(job, rng)
        s = sqrt(C0/rng.log(1e-3, {'widened': .015, 'reduced out': .025}.get(job['fit'], .05)))/1000
        kw.update(D1=D1*s, D2=D2*s, d=d*s)
        if g in ('laminar', 'creeping'):
            # viscosity for the wanted valve Reynolds number
            r1 = V.Reynolds_valve(nu=1.0, Q=Q*3600, D1=D1*s*1000, FL=FL, Fd=Fd, C=C0)
            kw['mu'] = r1*rho/(rng.log(20, 2e4) if g == 'laminar' else rng.log(1e-2, 30))
        if rng.random() < .08:
            k = dict(kw)
            for n in rng.sample(['D1', 'D2', 'd'], rng.choice([1, 2])): k.pop(n)
            T.call('refused', V.size_control_valve_l, k)
    elif g in ('laminar', 'creeping'): kw['mu'] = rng.log(1, 1e4)
    T.call('sizeL', V.size_control_valve_l, opts(job, rng, kw))


def gas(job, rng, T):
    FL = float(job['FL']); Fd = float(job['Fd'])
    xT = rng.uniform(.2, .9); k = rng.uniform(1.05, 1.67)
    P1 = rng.log(1e5, 2e7)
    lim = k/1.4*xT
    g = job['regime']
    x = lim*{'normal': rng.uniform(.1, .9), 'near choke': rng.choice([1 - 1e-6, 1 + 1e-6, rng.uniform(.9, 1.1)]), 'choked': rng.uniform(1.02, 1.8), 'laminar': rng.uniform(.05, 1.3), 'creeping': rng.uniform(.05, .9), 'tiny drop': rng.log(1e-4, .05)}[g]
    x = min(x, .98)
    kw = dict(T=rng.uniform(200, 800), MW=rng.log(2, 150), mu=rng.log(5e-6, 5e-5), gamma=k, Z=rng.uniform(.5, 1.1), P1=P1, P2=P1*(1 - x), Q=rng.log(1e-3, 10))
    if not (rng.random() < .2 and FL == .9): kw['FL'] = FL
    if rng.random() < .85: kw['Fd'] = Fd
    else: Fd = 1.0
    if rng.random() < .85 or job['regime'] in ('choked', 'near choke'): kw['xT'] = xT
    if job['fit'] != 'none':
        C0 = kw['Q']*3600/(24.6*P1/1000)*sqrt(kw['MW']*kw['T']*kw['Z']/x)
        D1, D2, d = fittings(job, rng)
        s = sqrt(C0/rng.log(1e-3, {'widened': .015, 'reduced out': .025}.get(job['fit'], .05)))/1000
        kw.update(D1=D1*s, D2=D2*s, d=d*s)
        if g in ('laminar', 'creeping'):
            r1 = V.Reynolds_valve(nu=1.0, Q=kw['Q']*3600, D1=D1*s*1000, FL=FL, Fd=Fd, C=C0)
            rho = kw['MW']*1e-3*P1/(kw['Z']*8.31446*kw['T'])
            kw['mu'] = r1*rho/(rng.log(20, 2e4) if g == 'laminar' else rng.log(1e-2, 30))
        if rng.random() < .08:
            q = dict(kw)
            for n in rng.sample(['D1', 'D2', 'd'], rng.choice([1, 2])): q.pop(n)
            T.call('refused', V.size_control_valve_g, q)
    T.call('sizeG', V.size_control_valve_g, opts(job, rng, kw))


def noisel(job, rng, T):
    FL = float(job['FL'])
    Psat = rng.log(1e3, 1e6)
    P1 = Psat*rng.uniform(1.5, 50)
    Kv = rng.log(.5, 2000); Fd = float(job['Fd'])
    kw = dict(m=rng.log(.1, 200), P1=P1, Psat=Psat, rho=rng.log(500, 1500), c=rng.uniform(800, 2000), Kv=Kv, d=rng.log(.02, .5), FL=FL, Fd=Fd, t_pipe=rng.log(.002, .02))
    kw['Di'] = kw['d']*rng.uniform(1, 2)
    if rng.random() < .5: kw['xFz'] = rng.uniform(.1, .6)
    C = Kv*1.1560992283536566
    xFz = kw.get('xFz', .9/sqrt(1 + 3*Fd*sqrt(C/(1.17*FL))))
    xc = xFz*(6e5/P1)**.125
    xF = min({'quiet': xc*rng.uniform(.05, .98), 'near': xc*rng.choice([1 - 1e-7, 1 + 1e-7, rng.uniform(.95, 1.05)]), 'cavitating': xc + (.99 - xc)*rng.uniform(.02, .98) if xc < .95 else .97}[job['regime']], .985)
    kw['P2'] = P1 - xF*(P1 - Psat)
    for n, v in dict(rho_pipe=7800.0*rng.uniform(.5, 1.2), c_pipe=rng.uniform(3000, 6000), rho_air=rng.uniform(.9, 1.4), c_air=rng.uniform(300, 360), An=rng.uniform(-6, -4)).items():
        if rng.random() < .4: kw[n] = v
    T.call('noiseL', V.control_valve_noise_l_2015, kw)


def noiseg(job, rng, T):
    k = rng.uniform(1.1, 1.67); FL = float(job['FL'])
    P1 = rng.log(2e5, 1e7)
    kw = dict(m=rng.log(.01, 30), P1=P1, T1=rng.uniform(250, 700), gamma=k, MW=rng.log(2, 100), Kv=rng.log(1, 2000), d=rng.choice([rng.log(.02, .4), rng.near(.15), rng.near(.05), .05, .15]), t_pipe=rng.log(.002, .02), Fd=float(job['Fd']), rho=rng.log(.5, 50))
    kw['Di'] = kw['d']*rng.uniform(1, 2)
    kw['FL'] = FL
    F = FL
    if rng.random() < .5:
        kw['FP'] = rng.uniform(.8, 1); kw['FLP'] = FL*rng.uniform(.8, 1)*kw['FP']
        F = kw['FLP']/kw['FP']
        if rng.random() < .4: kw['FL'] = None
    elif rng.random() < .2: kw[rng.choice(['FP', 'FLP'])] = .8
    xv = 1 - (2/(k + 1))**(k/(k - 1)); xc = F*F*xv; al = (1 - xv)/(1 - xc)
    xB = 1 - (1/k)**(k/(k - 1))/al; xE = 1 - 1/(22*al)
    ends = [0.02, xc, xv, xB, xE, .998]
    i = int(job['regime']) - 1
    lo, hi = ends[i], ends[i + 1]
    u = rng.choice([rng.random(), 1e-6, 1 - 1e-6])
    if i == 0: u = max(u, 1e-3)
    x = lo + (hi - lo)*u
    if not 0 < x < .999: x = .4
    kw['P2'] = P1*(1 - x)
    for n, v in dict(rho_pipe=7800.0*rng.uniform(.5, 1.2), c_pipe=rng.uniform(3000, 6000), P_air=rng.uniform(8e4, 1.1e5), rho_air=rng.uniform(.9, 1.4), c_air=rng.uniform(300, 360), An=rng.uniform(-5, -3), Stp=rng.uniform(.1, .4), T2=rng.uniform(200, 700), beta=rng.uniform(.5, 1)).items():
        if rng.random() < .3: kw[n] = v
    T.call('noiseG', V.control_valve_noise_g_2011, kw)
    if rng.random() < .1:
        q = dict(kw, FL=None); q.pop(rng.choice(['FP', 'FLP']), None)
        if not ('FP' in q and 'FLP' in q): T.call('refused', V.control_valve_noise_g_2011, q)


def choke(job, rng, T):
    FL = rng.choice([float(job['FL']), rng.uniform(.3, .99)])
    Pc = rng.log(2e6, 2e7); Psat = Pc*rng.log(1e-4, .9)
    FF = .96 - .28*sqrt(Psat/Pc)
    T.call('FF', V.FF_critical_pressure_ratio_l, dict(Psat=Psat, Pc=Pc))
    f = V.control_valve_choke_P_l
    for w in ('P1', 'P2'):
        kw = dict(Psat=Psat, Pc=Pc, FL=FL)
        ck = rng.choice([None, True, False])
        if ck is not None: kw['check_choking'] = ck
        P = FF*Psat*rng.choice([rng.uniform(1.001, 20), rng.uniform(.3, .999)])
        kw[w] = P
        # P1 < FF*Psat cannot choke; for P2 likewise
        bad = P < FF*Psat and ck is not False
        T.call('refused' if bad else 'chokeL', f, kw)
    base = dict(Psat=Psat, Pc=Pc, FL=FL)
    T.call('refused', f, base)
    T.call('refused', f, dict(base, P1=1e6, P2=5e5))
    g = V.control_valve_choke_P_g
    k = rng.uniform(1.05, 1.67); xT = rng.uniform(.2, .8)
    T.call('chokeG', g, dict(xT=xT, gamma=k, **{rng.choice(['P1', 'P2']): rng.log(1e4, 1e7)}))
    T.call('refused', g, dict(xT=xT, gamma=k))
    T.call('refused', g, dict(xT=xT, gamma=k, P1=2e5, P2=1e5))
    P1 = Psat*rng.uniform(1.2, 10)
    FP = rng.uniform(.7, 1); FLP = FL*rng.uniform(.7, 1)
    for F, kk in ((FL, dict(FL=FL)), (FLP/FP, dict(FLP=FLP, FP=FP)), (FLP/FP, dict(FLP=FLP, FP=FP, FL=FL))):
        dP = F*F*(P1 - FF*Psat)*rng.choice([1 - 1e-7, 1 + 1e-7, rng.uniform(.5, 1.5)])
        T.call('isL', V.is_choked_turbulent_l, dict(dP=dP, P1=P1, Psat=Psat, FF=FF, **kk))
    T.call('refused', V.is_choked_turbulent_l, dict(dP=1e3, P1=P1, Psat=Psat, FF=FF, **rng.choice([{}, dict(FP=FP), dict(FLP=FLP)])))
    Fg = k/1.4
    for kk in (dict(xT=xT), dict(xTP=xT)):
        T.call('isG', V.is_choked_turbulent_g, dict(x=Fg*xT*rng.choice([1 - 1e-7, 1 + 1e-7, rng.uniform(.5, 1.5)]), Fgamma=Fg, **kk))
    T.call('refused', V.is_choked_turbulent_g, dict(x=.3, Fgamma=Fg))
    T.call('cavitation_index', V.cavitation_index, dict(P1=P1, P2=P1*rng.uniform(.1, .95), Psat=Psat))


def factor(job, rng, T):
    g = job['regime']
    FL = rng.choice([float(job['FL']), rng.uniform(.3, 1)])
    for full in (True, False, None):
        d = rng.log(5, 500)
        C = d*d*rng.choice([rng.log(1e-3, .2), rng.near(.04)])
        Rev = {'creeping': rng.choice([rng.log(1e-3, 10), 9.999]), 'laminar': rng.choice([10.0, rng.log(10, 1000)]), 'transition': rng.log(100, 12000)}[g]
        kw = dict(FL=FL, C=C, d=d, Rev=Rev)
        if full is not None: kw['full_trim'] = full
        T.call('FR', V.Reynolds_factor, kw, site='%s-%s' % ('reduced' if full is False else 'full', g))
        T.call('Rev', V.Reynolds_valve, dict(nu=rng.log(1e-7, 1), Q=rng.log(.1, 1e4), D1=rng.log(5, 1000), FL=FL, Fd=float(job['Fd']), C=rng.log(.1, 1e4)))
        kw = dict(d=d)
        if rng.random() < .7: kw['D1'] = d*rng.uniform(.7, 3)
        if rng.random() < .7: kw['D2'] = d*rng.uniform(.7, 3)
        T.call('loss', V.loss_coefficient_piping, kw)


def scale(job, rng, T):
    f = V.convert_flow_coefficient
    for a in ('Cv', 'Kv', 'Av'):
        for b in ('Cv', 'Kv', 'Av'):
            T.call('scale', f, dict(flow_coefficient=rng.log(1e-6, 1e5), old_scale=a, new_scale=b))
    T.call('notimplemented', f, dict(flow_coefficient=5.0, old_scale=rng.choice(['cv', 'Ev', 'K', '']), new_scale='Cv'))
    T.call('notimplemented', f, dict(flow_coefficient=5.0, old_scale='Kv', new_scale=rng.choice(['cv', 'Ev', 'K', ''])))


def opening(job, rng, T):
    for n, f in (('quick', V.Cv_char_quick_opening), ('equal', V.Cv_char_equal_percentage), ('linear', V.Cv_char_linear)):
        for x in [0.0, 1.0] + [rng.random() for _ in range(6)]:
            T.call('opening', f, pos=(x,), name=n, x=x)


def run(job, rng, T, tier):
    T.trace(job['cell'])
    f = {'liquid': liquid, 'gas': gas, 'noise l': noisel, 'noise g': noiseg, 'choke': choke, 'factor': factor, 'scale': scale, 'opening': opening}[job['kind']]
    for _ in range((2 if job['kind'] in ('liquid', 'gas') else 6) * (1 if tier == 'quick' else 5)):
        f(job, rng, T)
