from fluids import fittings as K
from fluids.friction import ft_Crane

CR = {"gate": "GATE_VALVE", "globe": "GLOBE_VALVE", "angle 0": "ANGLE_VALVE_0", "angle 1": "ANGLE_VALVE_1", "angle 2": "ANGLE_VALVE_2", "swing": "SWING_CHECK_VALVE", "swing angled": "SWING_CHECK_VALVE_ANGLED",
      "lift": "LIFT_CHECK_VALVE", "lift angled": "LIFT_CHECK_VALVE_ANGLED", "tilting 5": "TILTING_CHECK_VALVE_5DEG", "tilting 15": "TILTING_CHECK_VALVE_15DEG", "globe stop 0": "GLOBE_STOP_CHECK_VALVE_0",
      "globe stop 1": "GLOBE_STOP_CHECK_VALVE_1", "globe stop 2": "GLOBE_STOP_CHECK_VALVE_2", "angle stop 0": "ANGLE_STOP_CHECK_VALVE_0", "angle stop 1": "ANGLE_STOP_CHECK_VALVE_1", "angle stop 2": "ANGLE_STOP_CHECK_VALVE_2",
      "ball": "BALL_VALVE", "diaphragm 0": "DIAPHRAGM_VALVE_WEIR", "diaphragm 1": "DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR", "foot 0": "FOOT_VALVE_POPPET_DISK", "foot 1": "FOOT_VALVE_HINGED_DISK",
      "butterfly 0": "BUTTERFLY_VALVE_CENTRIC", "butterfly 1": "BUTTERFLY_VALVE_DOUBLE_OFFSET", "butterfly 2": "BUTTERFLY_VALVE_TRIPLE_OFFSET", "plug 0": "PLUG_VALVE_STRAIGHT_THROUGH",
      "plug 1": "PLUG_VALVE_3_WAY_STRAIGHT_THROUGH", "plug 2": "PLUG_VALVE_3_WAY_90_DEG"}
DIRECT = {"gate": "K_gate_valve_Crane", "globe": "K_globe_valve_Crane", "angle": "K_angle_valve_Crane", "swing": "K_swing_check_valve_Crane", "lift": "K_lift_check_valve_Crane", "tilting": "K_tilting_disk_check_valve_Crane",
          "globe stop": "K_globe_stop_check_valve_Crane", "angle stop": "K_angle_stop_check_valve_Crane", "ball": "K_ball_valve_Crane", "diaphragm": "K_diaphragm_valve_Crane", "foot": "K_foot_valve_Crane",
          "butterfly": "K_butterfly_valve_Crane", "plug": "K_plug_valve_Crane"}
TEE = {"branch converging": "K_branch_converging_Crane", "run converging": "K_run_converging_Crane", "branch diverging": "K_branch_diverging_Crane", "run diverging": "K_run_diverging_Crane"}


def direct(n, rng, D1, D2, ang, fd):
    "the function for one kind of valve, and its arguments"
    p = n.split()
    stem = n if n in DIRECT else ' '.join(p[:-1])
    kw = {}
    if stem in ('swing', 'diaphragm', 'foot', 'tilting', 'butterfly'):
        kw['D'] = D2
    else:
        kw.update(D1=D1, D2=D2)
    if stem in ('gate', 'ball', 'plug'): kw['angle'] = ang
    if fd is not None: kw['fd'] = fd
    if stem in ('swing', 'lift'):
        kw['angled'] = n.endswith('angled')
        if kw['angled'] and rng.random() < .3: kw.pop('angled')
    if stem == 'tilting': kw['angle'] = float(p[1])
    elif p[-1].isdigit():
        kw['style'] = int(p[-1])
        if p[-1] == '0' and rng.random() < .3: kw.pop('style')
    if stem in ('swing', 'diaphragm', 'foot') and fd is not None and rng.random() < .4: kw.pop('D')
    return getattr(K, DIRECT[stem]), kw


def off(v, *pts):
    return all(abs(v - p) > 1e-9*abs(p) for p in pts)


def run(job, rng, T, tier):
    k, n, b0, a0 = job['kind'], job['name'], float(job['seat']), float(job['cls'])
    T.trace(job['cell'])
    for _ in range(2 if tier == 'quick' else 10):
        b = 1.0 if b0 == 1 else rng.choice([b0, min(.99, b0*rng.log(.85, 1.2))])
        ang = rng.choice([a0, rng.near(a0), a0*rng.log(.8, 1.2)])
        if k == 'valve':
            D2 = rng.choice([rng.log(.008, .9), rng.near(.2286), .2286, rng.near(.381), .381])
            D1 = D2 if b == 1 else D2*b
            if n == 'gate' and rng.random() < .1: ang = 0.0
            fd = rng.choice([None, rng.uniform(.007, .04)])
            x = dict(name=n, D1=D1, D2=D2, ang=ang, f=ft_Crane(D2) if fd is None else fd, site=n.replace(' ', '-'))
            f, kw = direct(n, rng, D1, D2, ang, fd)
            T.call('valve', f, kw, **x)
            kw = dict(D1=D1, D2=D2, angle=ang, fitting='CRANE_' + CR[n])
            if fd is not None: kw['fd'] = fd
            T.call('valve', K.Crane_loss_coefficient, kw, **x)
        elif k == 'lift':
            D2 = rng.log(.008, .9)
            D1 = D2 if b == 1 else D2*b
            kw = dict(rho=rng.log(1, 2000), style=n.replace(' deg', '°'))
            need = n.startswith(('lift', 'stop'))
            if need or rng.random() < .5: kw.update(D1=D1, D2=D2)
            if n == 'swing check angled' and rng.random() < .3: kw.pop('style')
            T.call('lift', K.v_lift_valve_Crane, kw, name=n, D1=D1, D2=D2)
        elif k == 'tee':
            ok = False
            while not ok:
                b = min(1.0, rng.choice([b0, rng.near(b0), b0*rng.log(.85, 1.2)]))
                q = rng.choice([rng.uniform(.01, .99), .4 + rng.uniform(-.02, .02), .5 + rng.uniform(-.02, .02), .6 + rng.uniform(-.02, .02)])
                ang = rng.choice([a0, rng.near(a0), rng.uniform(15, 100), 30.0, 45.0, 60.0, 75.0])
                Dr = rng.log(.02, 1)
                Db = Dr*b
                Q = rng.log(1e-4, 2)
                Qb, Qr = Q*q, Q*(1 - q)
                bb, qq = Db/Dr, Qb/(Qr + Qb)
                ok = off(bb*bb, .35, .4, 2/3) and off(bb, 2/3) and off(qq, .4, .5, .6)
            kw = dict(D_run=Dr, D_branch=Db, Q_run=Qr, Q_branch=Qb, angle=ang)
            if rng.random() < .1: kw.pop('angle')
            T.call('tee', getattr(K, TEE[n]), kw, name=n)
        elif k == 'convert':
            D = rng.log(.005, 2)
            x = rng.log(1e-3, 1e5)
            for m in ('Kv_to_Cv', 'Cv_to_Kv', 'Kv_to_K', 'K_to_Kv', 'K_to_Cv', 'Cv_to_K'):
                if m.startswith(n + '_'):
                    kw = {n: x}
                    if m.endswith('_K') or m.startswith('K_'): kw['D'] = D
                    T.call('convert', getattr(K, m), kw, name=m, x=x, D=D)
        elif k == 'darby':
            real = n.replace(' deg', '°').replace('beta', 'β')
            kw = dict(Re=rng.choice([rng.log(1, 1e8), 1e3, 1e5]))
            if n == 'constants': kw.update(K1=rng.log(50, 3000), Ki=rng.log(.01, 5), Kd=rng.log(.5, 8))
            else: kw['name'] = real
            if rng.random() < .5: kw['NPS'] = rng.choice([rng.log(.2, 50), 2, 12.0])
            else: kw['Di'] = rng.choice([rng.log(.006, 1.2), rng.choice(K.S40i)/1e3])
            T.call('darby', K.Darby3K, kw, name=n)
        elif k == 'hooper':
            real = n.replace(' deg', '°').replace('beta', 'β')
            kw = dict(Re=rng.choice([rng.log(1, 1e8), 1e3, 1e5]), Di=rng.log(.2, 60))
            if n == 'constants': kw.update(K1=rng.log(50, 3000), Kinfty=rng.log(.01, 5))
            else: kw['name'] = real
            T.call('hooper', K.Hooper2K, kw, name=n)
        elif k == 'basis':
            D1 = rng.log(.01, 2)
            T.call('basis', K.change_K_basis, dict(K1=rng.log(1e-3, 1e4), D1=D1, D2=D1*rng.choice([b, 1/b, rng.log(.1, 10)])))
        else:
            D2 = rng.log(.01, .6)
            sty = rng.choice([3, -1, 7])
            for f, kw in [(K.K_angle_valve_Crane, dict(D1=D2*b, D2=D2, style=sty)), (K.K_globe_stop_check_valve_Crane, dict(D1=D2*b, D2=D2, style=sty)), (K.K_angle_stop_check_valve_Crane, dict(D1=D2*b, D2=D2, style=sty)),
                          (K.K_diaphragm_valve_Crane, dict(D=D2, style=sty)), (K.K_foot_valve_Crane, dict(D=D2, style=sty)), (K.K_butterfly_valve_Crane, dict(D=D2, style=sty)),
                          (K.K_plug_valve_Crane, dict(D1=D2*b, D2=D2, angle=ang, style=sty)), (K.K_swing_check_valve_Crane, {}), (K.K_diaphragm_valve_Crane, {}), (K.K_foot_valve_Crane, {}),
                          (K.v_lift_valve_Crane, dict(rho=1000.0, D1=D2*b, D2=D2, style='swing')), (K.Crane_loss_coefficient, dict(D1=D2*b, D2=D2, angle=ang, fitting='CRANE_NEEDLE_VALVE')),
                          (K.Darby3K, dict(NPS=2.0, Re=1e4, name='nonesuch')), (K.Darby3K, dict(NPS=2.0, Re=1e4)), (K.Darby3K, dict(NPS=2.0, Re=1e4, K1=800.0, Ki=.1)), (K.Darby3K, dict(Re=1e4, K1=800.0, Ki=.1, Kd=4.0)),
                          (K.Darby3K, dict(NPS=2.0, K1=800.0, Ki=.1, Kd=4.0)), (K.Hooper2K, dict(Di=2.0, Re=1e4, name='nonesuch')), (K.Hooper2K, dict(Di=2.0, Re=1e4)), (K.Hooper2K, dict(Di=2.0, Re=1e4, K1=800.0))]:
                T.call('refused', f, kw)
