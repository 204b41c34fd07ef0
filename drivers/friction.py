from math import *
from fluids import friction as F
from fluids.core import Reynolds


def run(job, rng, T, tier):
    n = job['method']
    lo, hi, eps = float(job['Re']), float(job['next']), float(job['eps'])
    T.trace(job['cell'])
    eDs = [eps, eps*rng.log(.3, 1.3)] if eps else [0.0]
    Res = [lo, rng.near(lo), rng.log(lo, hi)] if hi > lo else [lo]
    for eD in eDs:
        for Re in Res:
            if n == 'unknown':
                if Re >= 2040:
                    T.call('refused', F.friction_factor, dict(Re=Re, eD=eD, Method=rng.choice(['Colbrook', 'moody', '', 'Laminar'])))
                for c in (True, False):
                    T.call('methods', F.friction_factor_methods, dict(Re=Re, eD=eD, check_ranges=c))
                misc(rng, T)
                continue
            if n == 'von_Karman':
                if eD:
                    T.call('karman', F.von_Karman, dict(eD=eD), method=n)
                T.call('prandtl', F.Prandtl_von_Karman_Nikuradse, dict(Re=Re))
                T.call('ft', F.ft_Crane, dict(D=rng.choice([rng.log(2e-3, 2), rng.near(.01)])))
                continue
            if n == 'Blasius':
                T.call('corr', F.Blasius, dict(Re=Re), method=n)
                T.call('corr', F.friction_laminar, dict(Re=Re), method='laminar')
                m, D, mu, rho = rng.log(1e-4, 100), rng.log(5e-3, 1), rng.log(1e-6, 1e-2), rng.log(.5, 2e3)
                if rng.random() < .5:
                    m = Re*pi*D*mu/4
                if 4*m/(pi*D*mu) < 11: m = 20*pi*D*mu
                me = rng.choice(['', 'Haaland', 'Churchill_1977', 'Colebrook', 'Moody'])
                kw = dict(m=m, rho=rho, mu=mu, D=D, roughness=eD*D, L=rng.log(1e-2, 1e4))
                if me: kw['Method'] = me
                if abs(4*m/(pi*D*mu)/2040 - 1) > 1e-9:
                    T.call('dP', F.one_phase_dP, kw, method=me)
                continue
            if eD == 0 and n == 'Rao_Kumar_2007':
                continue
            if n == 'Wood_1966' and eD == 0:
                pass
            # the direct function
            if n in ('Clamond', 'Colebrook'):
                f = getattr(F, n)
                for x, tol in ([({}, 1e-10), ({'fast': False}, 1e-10), ({'fast': True}, 2e-3)] if n == 'Clamond' else
                               [({}, 1e-10), ({'tol': None}, 1e-10), ({'tol': -1}, 2e-3), ({'tol': 1e-12}, 1e-10)] + ([({'tol': 0}, 1e-12)] if rng.random() < .05 else [])):
                    if tol == 2e-3 and Re < 10.01:
                        continue
                    T.call('colebrook', f, dict(Re=Re, eD=eD, **x), tol=tol)
            elif n not in ('laminar', ''):
                if Re > 2300:
                    T.call('corr', getattr(F, n), dict(Re=Re, eD=eD), method=n, site=n)
            # the dispatcher
            d = rng.choice([True, False, None])
            kw = dict(Re=Re)
            if eD or rng.random() < .5: kw['eD'] = eD
            if n: kw['Method'] = n
            elif rng.random() < .5: kw['Method'] = None
            if d is not None: kw['Darcy'] = d
            T.call('ff', F.friction_factor, kw, method=n, eD=eD)


def misc(rng, T):
    x = rng.log(1e-3, 1)
    T.call('transmission', F.transmission_factor, dict(fd=x))
    T.call('transmission', F.transmission_factor, dict(F=2/sqrt(x)))
    T.call('refused', F.transmission_factor, {})
    D = rng.log(1e-3, 2); m = rng.log(1e-3, 1e3)
    kw = dict(m=m, D=D, rho_o=rng.log(.1, 2000), rho_i=rng.log(.1, 2000))
    if rng.random() < .5: kw['D_i'] = D*rng.log(.2, 5)
    T.call('dP_acc', F.one_phase_dP_acceleration, kw, atol=1e-12*(m/D**2)**2)
    kw = dict(m=m, D=D, rho=rng.log(.1, 2000), dv_dP=-rng.log(1e-9, 1e-3), dP_dL=-rng.log(1, 1e6), dA_dL=rng.choice([0, rng.uniform(-.1, .1)]))
    T.call('dPdz', F.one_phase_dP_dz_acceleration, kw, atol=0.0)
    kw = dict(angle=rng.choice([0., 90., -90., rng.uniform(-90, 90)]), rho=rng.log(.1, 2000))
    if rng.random() < .7: kw['L'] = rng.log(1e-2, 1e3)
    if rng.random() < .3: kw['g'] = rng.uniform(1, 20)
    T.call('dP_grav', F.one_phase_dP_gravitational, kw, atol=1e-12*kw['rho'])
    k = rng.choice(sorted(F._Farshad_roughness)); c = list(F._Farshad_roughness[k])
    tab = FARSHAD[k]
    T.call('farshad', F.roughness_Farshad, dict(ID=k, **({'D': D} if rng.random() < .7 else {})), c=[tab[1], tab[2], tab[0]])
    T.call('farshad', F.roughness_Farshad, dict(coeffs=(tab[1], tab[2]), D=D), c=[tab[1], tab[2], tab[0]])
    for opt, o in (('none', None), ('yes', True), ('no', False)):
        k = rng.choice(sorted(F.HHR_roughness))
        kw = dict(ID=k)
        if o is not None: kw['optimism'] = o
        if rng.random() < .3: kw['D'] = D
        T.call('material', F.material_roughness, kw, kind='range', opt=opt, c=list(F.HHR_roughness[k]))
        k = rng.choice(sorted(CLEAN))
        T.call('material', F.material_roughness, dict(kw, ID=k), kind='clean', opt=opt, c=[0, 0, CLEAN[k]])
        k = rng.choice(sorted(FARSHAD)); tab = FARSHAD[k]
        T.call('material', F.material_roughness, dict(kw, ID=k), kind='farshad', opt=opt, c=[tab[1], tab[2], tab[0]])
    k = rng.choice(sorted(F.HHR_roughness)); T.call('nearest', F.nearest_material_roughness, dict(name=k, clean=False), want=k, again=False)
    k = rng.choice(sorted(CLEAN) + sorted(FARSHAD)); T.call('nearest', F.nearest_material_roughness, dict(name=k, clean=True), want=k, again=False)


CLEAN = {"Brass": .00000152, "Lead": .00000152, "Glass": .00000152, "Steel": .00000152, "Asphalted cast iron": .000122, "Galvanized iron": .000152,
         "Cast iron": .000259, "Wood stave": .000183, "Rough wood stave": .000914, "Concrete": .000305, "Rough concrete": .00305, "Riveted steel": .000914, "Rough riveted steel": .00914}
FARSHAD = {"Plastic coated": (5E-6, 0.0002, -1.0098), "Carbon steel, honed bare": (12.5E-6, 0.0005, -1.0101), "Cr13, electropolished bare": (30E-6, 0.0012, -1.0086),
           "Cement lining": (33E-6, 0.0014, -1.0105), "Carbon steel, bare": (36E-6, 0.0014, -1.0112), "Fiberglass lining": (38E-6, 0.0016, -1.0086), "Cr13, bare": (55E-6, 0.0021, -1.0055)}
