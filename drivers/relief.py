from fluids import safety_valve as S
ATM = 101325.0


def steamstate(rng, band, ed):
    Ts = S._KSH_tempKs_7E if ed == '7E' else S._KSH_K_10E
    Ps = S._KSH_Pa_7E if ed == '7E' else S._KSH_Pa_10E
    z = rng.random()
    i = band
    if i < len(Ts) - 1: T = rng.choice([rng.uniform(Ts[i], Ts[i+1]), rng.near(Ts[i]), Ts[i]])
    else: T = rng.choice([rng.uniform(Ts[-1], 922.1), rng.uniform(922.2, 1000), rng.uniform(350, 478), rng.near(422.15), rng.near(478.15), rng.near(922.15)])
    P = rng.choice([rng.log(1.5e5, 2.2e7), rng.uniform(2e7, 2.3e7), rng.near(20780325.0), rng.near(22063223.338), rng.near(10339e3), rng.choice(Ps)])
    return T, P


def ed(kw, job, rng):
    o = job['opt']
    if o != 'default': kw['edition'] = o
    elif rng.random() < .06: kw['edition'] = rng.choice(['9E', '7e', '', '10'])
    return kw


def run(job, rng, T, tier):
    k, b = job['kind'], job['band']
    T.trace(job['cell'])
    for _ in range(12 if tier == 'quick' else 60):
        if k == 'size':
            A = S.API526_A[b-1] if b else rng.log(1e-8, 7e-5)
            lo = S.API526_A[b-2] if b > 1 else 1e-8
            T.call('size', S.API520_round_size, dict(A=rng.choice([A, A*(1 - 1e-9), A*(1 + 1e-9), rng.near(A), rng.uniform(lo, A)])))
            if rng.random() < .05: T.call('table', lambda: [list(x) for x in zip(S.API526_A_sq_inch, S.API526_A, S.API526_letters)], {})
        elif k == 'C':
            T.call('C', S.API520_C, dict(k=rng.choice([1, 1.0, rng.uniform(1.0001, 2), 1.4])))
            kk = rng.uniform(1.01, 1.8); P1 = rng.log(1e5, 1e7)
            T.call('F2', S.API520_F2, dict(k=kk, P1=P1, P2=P1*rng.choice([rng.uniform(.3, .99), rng.uniform(.99, .99999)])))
            T.call('N', S.API520_N, dict(P1=rng.choice([rng.log(1e5, 2.2e7), rng.near(10339e3), rng.uniform(1.03e7, 2.3e7)])))
        elif k == 'gas':
            kk = rng.uniform(1.05, 1.7); P1 = rng.log(1.2e5, 2e7)
            rc = (2/(kk+1))**(kk/(kk-1))
            kw = dict(m=rng.log(1e-3, 1e3), T=rng.uniform(200, 900), Z=rng.uniform(.4, 1.2), MW=rng.log(2, 200), k=kk, P1=P1)
            r = {0: rng.uniform(.01, rc), 1: rng.uniform(rc, .995), 2: rc*rng.choice([1 - 1e-7, 1 + 1e-7, rng.uniform(.99, 1.01)]), 3: None}[b]
            if r: kw['P2'] = P1*r
            elif abs(ATM/P1/rc - 1) < 1e-8: continue
            for n, v in (('Kd', rng.uniform(.6, 1)), ('Kb', rng.uniform(.7, 1)), ('Kc', rng.choice([.9, 1.0]))):
                if rng.random() < .6: kw[n] = v
            T.call('Ag', S.API520_A_g, kw)
        elif k in ('steam', 'SH'):
            t, P = steamstate(rng, b, job['opt'])
            if k == 'SH': T.call('SH', S.API520_SH, ed(dict(T1=t, P1=P), job, rng))
            else:
                kw = dict(m=rng.log(1e-3, 1e3), T=t, P1=P)
                for n, v in (('Kd', rng.uniform(.6, 1)), ('Kb', rng.uniform(.7, 1)), ('Kc', rng.choice([.9, 1.0]))):
                    if rng.random() < .6: kw[n] = v
                T.call('As', S.API520_A_steam, ed(kw, job, rng))
        elif k == 'Kb':
          for _ in range(20):
                lims = [-5, 10, 29, 31, 37.7, 40, 45, 50, 80]
                g = rng.choice([rng.uniform(lims[b], lims[b+1])] + ([rng.near(30.0), rng.near(38.0), rng.near(50.0)] if b in (2, 3, 6) else []))
                Ps = rng.log(1.5e5, 1e7)
                kw = dict(Pset=Ps, Pback=ATM + g/100*(Ps - ATM))
                if any(abs(g - q) < 1e-8 for q in (30, 38, 50)): continue
                if job['opt'] != 'default': kw['overpressure'] = float(job['opt'])
                elif rng.random() < .2: kw['overpressure'] = rng.choice([.2, .15, .25, 0.0, 10])
                T.call('B', S.API520_B, kw)
        elif k == 'Kw':
          for _ in range(20):
                lims = [-5, 8, 15, 17, 20, 25, 30, 38, 45, 50, 70]
                g = rng.choice([rng.uniform(lims[b], lims[b+1]), rng.near(15.0)])
                Ps = rng.log(1.5e5, 1e7)
                T.call('W', S.API520_W, dict(Pset=Ps, Pback=ATM + g/100*(Ps - ATM)))
        elif k == 'Kv':
            T.call('Kv', S.API520_Kv, ed(dict(Re=10**(b + 1 + rng.random())), job, rng))
        elif k == 'liquid':
            over = rng.choice([.1, .16, .21, .25, 0.0])
            Ps = rng.log(1.5e5, 1e7)
            g = [rng.uniform(0, 14), rng.uniform(14, 16), rng.uniform(16, 30), rng.uniform(30, 50), rng.uniform(0, 50), rng.uniform(50, 90)][b]/100
            P1 = (1 + over)*(Ps - ATM) + ATM
            kw = dict(m=rng.log(.1, 1e3), rho=rng.log(400, 2000), P1=P1, P2=ATM + g*(Ps - ATM), overpressure=over)
            for n, v in (('Kd', rng.uniform(.5, .9)), ('Kc', rng.choice([.9, 1.0])), ('Kw', rng.uniform(.7, 1)), ('Kv', rng.uniform(.5, 1)), ('mu', rng.log(1e-4, 50))):
                if rng.random() < .5: kw[n] = v
            kw2 = ed(dict(kw), job, rng)
            T.call('Al', S.API520_A_l, kw2)
        elif k == 'noise':
            r = [rng.uniform(.5, 1.2), rng.uniform(1, 2.92), rng.choice([rng.uniform(2.915, 2.935), rng.near(2.92), rng.near(2.93)]), rng.log(2.94, 100)][b]
            T.call('graph', S.API521_noise_graph, dict(P_ratio=r))
            P2 = rng.log(5e4, 1e6)
            T.call('noise', S.API521_noise, dict(m=rng.log(.1, 300), P1=P2*r, P2=P2, c=rng.uniform(150, 1000), r=rng.log(1, 1000)))
            T.call('ground', S.VDI_3732_noise_ground_flare, dict(m=rng.log(.01, 300)), site='ground')
            T.call('elevated', S.VDI_3732_noise_elevated_flare, dict(m=rng.log(.01, 300)), site='elevated')
