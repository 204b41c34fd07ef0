from math import pi
from fluids import flow_meter as M

SIMPLE = "orifice_expansibility orifice_expansibility_1989 nozzle_expansibility cone_meter_expansibility_Stewart C_Reader_Harris_Gallagher C_Miller_1996 C_eccentric_orifice_ISO_15377_1998 C_quarter_circle_orifice_ISO_15377_1998 discharge_coefficient_to_K K_to_discharge_coefficient dP_orifice velocity_of_approach_factor flow_coefficient C_long_radius_nozzle C_ISA_1932_nozzle C_venturi_nozzle dP_venturi_tube diameter_ratio_cone_meter dP_cone_meter diameter_ratio_wedge_meter C_wedge_meter_Miller C_wedge_meter_ISO_5167_6_2017 dP_wedge_meter C_Reader_Harris_Gallagher_wet_venturi_tube dP_Reader_Harris_Gallagher_wet_venturi_tube".split()


def simple(fn, rng, T):
    D = rng.choice([rng.log(.02, 1), rng.near(.07112), rng.near(.1), rng.near(.0584), rng.near(.7*.0254), rng.near(1.4*.0254), rng.near(.065), rng.near(.5)])
    b = rng.choice([rng.uniform(.1, .85), rng.uniform(.3, .75)])
    P1 = rng.log(1e4, 1e7)
    r = rng.choice([rng.uniform(.4, .9999), rng.uniform(.75, 1)])
    mu = rng.log(1e-5, 1e-1)
    Re = rng.choice([rng.log(100, 1e8), rng.log(3000, 6000), rng.near(3700.0)])
    m = Re*pi*D*mu/4
    k = rng.choice([1.0, rng.uniform(1.05, 1.7), 1.4])
    C = rng.uniform(.3, 1)
    H = D*rng.uniform(.1, .9)
    rhol = rng.log(300, 2000)
    rhog = rhol*rng.log(1e-3, .5)
    mg = rng.log(1e-2, 1e2)
    pool = dict(D=D, Do=D*b, P1=P1, P2=P1*r, k=k, rho=rng.log(.5, 2000), mu=mu, m=m, C=C, K=rng.log(1e-2, 1e4), Dc=D*b, H=H, mg=mg, ml=mg*rng.log(1e-4, 3), rhog=rhog, rhol=rhol)
    f = getattr(M, fn)
    names = [a for a in f.__code__.co_varnames[:f.__code__.co_argcount] if a in pool]
    kw = {a: pool[a] for a in names}
    if fn == 'nozzle_expansibility':
        if rng.random() < .5: kw['beta'] = rng.uniform(.2, .85)
        if kw['k'] != 1 and rng.random() < .1: kw['P2'] = kw['P1']
    elif fn == 'C_Reader_Harris_Gallagher':
        t = rng.choice(['corner', 'flange', 'D', 'D/2', 'D and D/2', None, 'bad'])
        if t == 'bad':
            T.call('refused', f, dict(kw, taps=rng.choice(['pipe', 'vena contracta', 'Corner'])))
            return
        if t: kw['taps'] = t
    elif fn == 'C_Miller_1996':
        sub = rng.choice(['orifice', 'eccentric orifice', 'segmental orifice', 'conical orifice', 'quarter circle orifice'])
        kw['subtype'] = rng.choice([sub, 'Miller ' + sub])
        kw['taps'] = rng.choice({'orifice': ['corner', 'flange', 'D and D/2', 'pipe'], 'eccentric orifice': ['flange', 'vena contracta'], 'segmental orifice': ['flange', 'vena contracta']}.get(sub, ['corner', 'flange']))
        if sub == 'eccentric orifice': kw['tap_position'] = rng.choice(['180 degree', '90 degree'])
        if sub == 'conical orifice' and rng.random() < .6: kw['m'] = rng.choice([300, 450, 600, 200])*b*rng.uniform(.9, 1.1)*pi*D*mu/4
        z = rng.random()
        if z < .1 and sub in ('orifice', 'eccentric orifice', 'segmental orifice'):
            T.call('refused', f, dict(kw, taps=rng.choice(['bad', None] + {'orifice': ['vena contracta'], 'eccentric orifice': ['corner', 'pipe'], 'segmental orifice': ['corner', 'D and D/2']}[sub])))
            return
        if z > .95:
            T.call('refused', f, dict(kw, subtype=rng.choice(['ISO 5167 orifice', 'cone'])))
            return
        if .85 < z < .95 and sub == 'eccentric orifice':
            T.call('refused', f, dict(kw, tap_position=rng.choice(['45 degree', None])))
            return
        if kw['taps'] == 'corner' and rng.random() < .3: kw.pop('taps')
        if kw.get('tap_position') == '180 degree' and rng.random() < .3: kw.pop('tap_position')
    elif fn.endswith('wet_venturi_tube'):
        kw['D'] = rng.log(.05, .5); kw['Do'] = kw['D']*b
        kw['H'] = rng.choice([1.0, 1.35, .79])
        if kw['H'] == 1 and rng.random() < .5: kw.pop('H')
    T.call(fn, f, kw)


def run(job, rng, T, tier):
    mt, taps, pos, b0, re0, r0 = job['meter'], job['taps'], job['pos'], float(job['ratio']), float(job['re']), float(job['press'])
    T.trace(job['cell'])
    tk = {}
    if taps != 'none': tk['taps'] = taps
    if pos != 'none': tk['tap_position'] = pos
    x = dict(meter=mt, taps='corner' if taps == 'none' else taps, tp='180 degree' if pos == 'none' else pos)
    for _ in range(2 if tier == 'quick' else 4):
        D = rng.choice([rng.log(.025, 1), rng.near(.1), rng.near(.07112), rng.near(.0584)])
        b = min(.85, rng.choice([b0, b0*rng.log(.85, 1.15)]))
        D2 = D*b
        if 'cone' in mt: D2 = D*(1 - b*b)**.5
        elif 'wedge' in mt: D2 = D*rng.uniform(.2, .6)
        r = rng.choice([r0, 1 - (1 - r0)*rng.log(.2, 1.1)])
        P1 = rng.log(1e5, 5e6)
        P2 = P1*r
        rho = rng.log(.5, 1500)
        k = rng.choice([1.0, 1.3, rng.uniform(1.1, 1.67)])
        spec = {}
        if mt == 'unspecified meter' or rng.random() < .08: spec['C_specified'] = rng.uniform(.4, .99)
        if rng.random() < .12: spec['epsilon_specified'] = rng.uniform(.8, 1)
        # a viscosity that puts the flow near the wanted Reynolds number
        m0 = float(M.flow_meter_discharge(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=.7, meter_type=mt))
        mu = 4*m0/(pi*D*re0)
        base = dict(D=D, rho=rho, mu=mu, k=k, meter_type=mt, **tk, **spec)
        if 'epsilon_specified' in spec and rng.random() < .5: base.pop('k')
        S = M.differential_pressure_meter_solver
        smooth = 'Hollingshead' not in mt and not (mt == 'Miller conical orifice') and re0 > 2e4
        T.call('rate', S, dict(base, D2=D2, P1=P1, P2=P2), **x)
        try:
            m = float(S(**dict(base, D2=D2, P1=P1, P2=P2)))
        except Exception:
            m = m0
        u = smooth and (1 - r) < .12 and re0 > 1e5
        T.call('sizeD2', S, dict(base, m=m, P1=P1, P2=P2), want=D2, unique=u and b < .76 and mt not in M.all_meters - M.beta_simple_meters, **x)
        T.call('sizeP2', S, dict(base, m=m, P1=P1, D2=D2), want=P2, unique=u, **x)
        T.call('sizeP1', S, dict(base, m=m, P2=P2, D2=D2), want=P1, unique=u, **x)
        base['k'] = k
        T.call('Ceps', M.differential_pressure_meter_C_epsilon, dict(base, D2=D2, m=m0*rng.log(.3, 3), P1=P1, P2=P2), **x)
        T.call('beta', M.differential_pressure_meter_beta, dict(D=D, D2=D2, meter_type=mt), **x)
        kw = dict(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=rng.uniform(.5, 1), meter_type=mt)
        if rng.random() < .5: kw['expansibility'] = rng.uniform(.6, 1)
        if mt == 'ISO 5167 orifice' and rng.random() < .5: kw.pop('meter_type')
        T.call('discharge', M.flow_meter_discharge, kw, **x)
        kw = dict(D=D, D2=D2, P1=P1, P2=P2, C=rng.uniform(.5, 1), meter_type=mt)
        f = M.differential_pressure_meter_dP
        if mt == 'venturi nozzle': T.call('notimplemented', f, kw)
        elif mt == 'unspecified meter': T.call('refused', f, kw)
        else:
            T.call('dP', f, kw, **x)
            kw.pop('C')
            if mt in M._dP_orifice_set or mt in ('long radius nozzle', 'ISA 1932 nozzle'): T.call('refused', f, kw)
            else: T.call('dP', f, kw, **x)
        z = rng.random()
        if z < .1: T.call('refused', S, dict(base, m=m, P1=P1))
        elif z < .2: T.call('refused', S, dict(base, P1=P1, P2=P2))
        elif z < .3: T.call('refused', S, dict(base, m=m, P1=P1, P2=P2, D2=D2))
        elif z < .4: T.call('refused', S, dict(base, P1=P1, P2=P2, D2=D2, meter_type='nonesuch'))
        elif z < .5: T.call('refused', M.differential_pressure_meter_C_epsilon, dict(D=D, D2=D2, m=m, P1=P1, P2=P2, rho=rho, mu=mu, k=k, meter_type='unspecified meter'))
        elif z < .6: T.call('refused', M.differential_pressure_meter_beta, dict(D=D, D2=D2, meter_type='Orifice'))
        for _ in range(3): simple(rng.choice(SIMPLE), rng, T)
