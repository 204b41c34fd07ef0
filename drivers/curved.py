from fluids import friction as F

LAM = ['White', 'Mori Nakayama laminar', 'Schmidt laminar']
TURB = ['Schmidt turbulent', 'Mori Nakayama turbulent', 'Prasad', 'Czop', 'Guo', 'Ju', 'Mandal Nigam', 'Srinivasan turbulent']
CRIT = ['Seth Stahel', 'Ito', 'Kubair Kuloor', 'Kutateladze Borishanskii', 'Schmidt', 'Srinivasan']
ROUGH = ['Schmidt turbulent', 'Prasad', 'Ju', 'Mandal Nigam']
FN = {'White': 'helical_laminar_fd_White', 'Mori Nakayama laminar': 'helical_laminar_fd_Mori_Nakayama', 'Schmidt laminar': 'helical_laminar_fd_Schmidt',
      'Schmidt turbulent': 'helical_turbulent_fd_Schmidt', 'Mori Nakayama turbulent': 'helical_turbulent_fd_Mori_Nakayama', 'Srinivasan turbulent': 'helical_turbulent_fd_Srinivasan'}
for n in TURB:
    FN.setdefault(n, 'helical_turbulent_fd_' + n.replace(' ', '_'))


def run(job, rng, T, tier):
    k = job['kind']
    lo, hi = float(job['Re']), float(job['next'])
    T.trace(job['cell'])
    for Re in ([lo, rng.near(lo), rng.log(lo, hi)] if hi > lo else [lo, rng.log(lo, 3*lo)]):
        if k == 'plate':
            b = float(job['ratio'])
            for b in (b, rng.near(b), rng.uniform(10, 80)):
                T.call('martin', F.friction_plate_Martin_1999, dict(Re=Re, chevron_angle=b))
                T.call('vdi', F.friction_plate_Martin_VDI, dict(Re=Re, chevron_angle=b))
                T.call('kumar', F.friction_plate_Kumar, dict(Re=Re, chevron_angle=b))
                T.call('muley', F.friction_plate_Muley_Manglik, dict(Re=Re, chevron_angle=b, plate_enlargement_factor=rng.uniform(1, 1.6)))
            continue
        Dc = rng.log(.02, 5)
        Di = Dc*float(job['ratio'])*rng.choice([1, rng.log(.5, 1.5)])
        rough = rng.choice([0.0, Di*rng.log(1e-7, .05)])
        g = dict(Di=Di, Dc=Dc)
        if k == 'crit':
            for c in CRIT:
                T.call('crit', getattr(F, 'helical_transition_Re_' + c.replace(' ', '_')), g, method=c)
                T.call('crit', F.helical_Re_crit, dict(g, Method=c), method=c)
            T.call('crit', F.helical_Re_crit, dict(g), method='Schmidt')
            continue
        if k == 'unknown':
            T.call('refused', F.friction_factor_curved, dict(g, Re=Re, Method=rng.choice(['x', 'Schmidt', 'white', 'Ito'])))
            T.call('refused', F.friction_factor_curved, dict(g, Re=Re, Rec_method=rng.choice(['x', 'White', 'ito', ''])))
            T.call('refused', F.helical_Re_crit, dict(g, Method=rng.choice(['x', 'White', 'ito', ''])))
            continue
        rgh = rough and Re >= 2040
        if '/crit' in k or k == '':
            crit = k[:-5] or 'Schmidt'
            rc = F.helical_Re_crit(Di, Dc, crit)
            for Re in (Re, rc*(1 - 1e-6), rc*(1 + 1e-6), rc*rng.log(.5, 2), rc):
                lam, turb = rng.choice(LAM), rng.choice(TURB)
                kw = dict(g, Re=Re)
                if k: kw['Rec_method'] = crit
                if k or rng.random() < .5: kw.update(laminar_method=lam, turbulent_method=turb)
                else: lam, turb = 'Schmidt laminar', 'Schmidt turbulent'
                if rough: kw['roughness'] = rough
                d = rng.choice([None, True, False])
                if d is not None: kw['Darcy'] = d
                if Re == rc:   # the reported boundary itself belongs to the turbulent side
                    T.call('atcrit', F.friction_factor_curved, kw, turb=turb)
                    T.call('atlist', F.friction_factor_curved_methods, dict(g, Re=F.helical_Re_crit(Di, Dc), check_ranges=True))
                    continue
                T.call('ff', F.friction_factor_curved, kw, method='', crit=crit, lam=lam, turb=turb)
                c = rng.choice([None, True, False])
                kw = dict(g, Re=rng.choice([Re, F.helical_Re_crit(Di, Dc)*rng.choice([.999999, 1.000001])]))
                if c is not None: kw['check_ranges'] = c
                T.call('methods', F.friction_factor_curved_methods, kw)
            continue
        kw = dict(g, Re=Re)
        if k in ROUGH and rough: kw['roughness'] = rough
        T.call('corr', getattr(F, FN[k]), kw, method=k)
        kw = dict(g, Re=Re, Method=k)
        if rough: kw['roughness'] = rough
        d = rng.choice([None, True, False])
        if d is not None: kw['Darcy'] = d
        T.call('ff', F.friction_factor_curved, kw, method=k, crit='Schmidt', lam='Schmidt laminar', turb='Schmidt turbulent')
