from math import exp
from fluids import mixing as X, open_flow as W, saltation as S, separator as Z
PSI = 6894.757293168361


def run(job, rng, T, tier):
    d, law, c = job['dev'], job['law'], job['c']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 8
    E = lambda: rng.choice([1 - 1e-9, 1 + 1e-9, .99, 1.01])
    if d == 'weir':
        fn = getattr(W, 'Q_weir_' + law)
        for _ in range(20*n):
            h1 = rng.log(.02, 2)
            kw = dict(h1=h1)
            if law == 'V_Shen':
                if c < 5: kw['angle'] = rng.uniform(20*c, 20*c + 20)
                elif c == 5: kw['angle'] = rng.choice([20, 40, 60, 80, 100, 90, 40.0])
                elif rng.random() < .5: kw['angle'] = rng.choice([rng.uniform(5, 20), rng.uniform(100, 150)])
            else:
                kw.update(h2=h1*rng.log(.3, 30), b=rng.log(.1, 20))
                if law == 'rectangular_SIA': kw['b1'] = kw['b']*rng.log(1, 30)
            T.call('weir', fn, kw, law=law)
    elif d == 'channel':
        for _ in range(40*n):
            Rh, Sl, k = rng.log(.01, 20), rng.log(1e-6, .5), rng.log(.008, .5)
            v = T.call('manning', W.V_Manning, dict(Rh=Rh, S=Sl, n=k))
            C = T.call('ntoc', W.n_Manning_to_C_Chezy, dict(n=k, Rh=Rh))
            w = T.call('chezy', W.V_Chezy, dict(Rh=Rh, S=Sl, C=C))
            b = T.call('cton', W.C_Chezy_to_n_Manning, dict(C=C, Rh=Rh))
            T.event('same', manning=v, chezy=w, back=b, n=k)
    elif d == 'tables':
        for t in W.n_dicts:
            for g, rows in t.items():
                for r, v in rows.items(): T.event('row', out=list(v))
    elif d == 'agitator':
        for _ in range(25*n):
            kw = dict(N=rng.log(.1, 10), T=rng.log(.2, 10), mu=rng.log(1e-4, 10), rho=rng.uniform(600, 2000))
            kw['H'] = kw['T']*rng.log(.5, 2)
            D = kw['D'] = kw['T']*rng.uniform(.2, .8)
            if c % 2: kw.pop('D'); D = kw['T']/2
            if rng.random() < .2 and c % 2: kw['D'] = None
            # power for a chosen regime constant
            k = rng.log(10, 6000) if c < 3 else rng.choice([6370*rng.choice([1 - 1e-6, 1 + 1e-6, 1.01, .99]), rng.log(6400, 1e7)])
            kw['P'] = (k*kw['mu']/(kw['rho']*D**2*kw['N']))**3*kw['rho']*kw['N']**3*D**5/9.80665
            if rng.random() < .6: kw['homogeneity'] = rng.choice([.5, .9, .99, .999, rng.uniform(.01, .99)])
            T.call('agitator', X.agitator_time_homogeneous, kw)
    elif d == 'helical':
        for _ in range(40*n):
            D = rng.log(.1, 5)
            Kp = T.call('rieger', X.Kp_helical_ribbon_Rieger, dict(D=D, h=D*rng.log(.3, 3), nb=rng.choice([1, 2, 3]), pitch=D*rng.log(.2, 2), width=D*rng.uniform(.05, .3), T=D*rng.uniform(1.01, 1.4)))
            T.call('grenville', X.time_helical_ribbon_Grenville, dict(Kp=Kp, N=rng.log(.01, 10)))
    elif d == 'static':
        for _ in range(40*n):
            T.call('cov', X.COV_motionless_mixer, dict(Ki=rng.uniform(.1, .95), Q1=rng.log(.1, 100), Q2=rng.log(.01, 10), pipe_diameters=rng.choice([0, 1, rng.uniform(0, 12)])))
            D = rng.log(.01, 2)
            T.call('kmix', X.K_motionless_mixer, dict(K=rng.log(1, 1000), L=D*rng.log(.5, 30), D=D, fd=rng.log(.005, .1)))
    elif d == 'tee':
        k = int(law)
        b0 = {1: .7, 2: .8, 3: .8, 4: 2}[k]
        for _ in range(20*n):
            B = {1: b0*rng.log(1e-3, .9), 2: b0*(1 + rng.choice([1e-7, -1e-7, 1e-3, -1e-3])), 3: b0*rng.log(1.1, 1e3)}.get(c)
            D, Q1 = rng.log(.05, 2), rng.log(.01, 50)
            kw = dict(Q1=Q1, D=D, D2=None)
            if c in (1, 2, 3):
                r = (B/k**2)**1.5 if rng.random() < .4 and B/k**2 < .9 else None
                if r is not None: kw['Q2'] = Q1*r
                else:
                    kw['Q2'] = Q1*rng.log(.01, 1)
                    kw['D2'] = D*kw['Q2']/Q1*k/B**.5
            else:
                kw['Q2'] = Q1*rng.log(.005, 1)
                if c == 5: kw['D2'] = D*rng.uniform(.05, 1)
                if c == 6: kw['pipe_diameters'] = rng.uniform(.2, 5)
            if k > 1 or rng.random() < .5: kw['n'] = k
            if c < 4 and rng.random() < .5: kw['pipe_diameters'] = rng.choice([1, 2.5, 5, 4.])
            T.call('tee', X.size_tee, kw)
        for bad in (0, 5, -1, 6): T.call('tee', X.size_tee, dict(Q1=1., Q2=.1, D=.3, D2=.1, n=bad))
    elif d == 'salt':
        fn = getattr(S, law)
        for _ in range(20*n):
            D = rng.log(.02, 1)
            q = rng.log(20, 5000)
            rg = rng.log(.1, 50)
            kw = dict(mp=rng.log(1e-3, 100), dp=rng.log(1e-5, 1e-2), rhog=rg, D=D, rhop=rg*q)
            if c > 1 and law not in ('Schade', 'Rizk', 'Geldart_Ling'): kw['Vterminal'] = rng.choice([rng.log(.05, 3), rng.log(3, 20), 3, 3.0])
            if law == 'Matsumoto_1977': kw['dp'] = 1.39*D*q**-.74*{1: rng.log(.05, 1), 2: rng.log(1, 10)}.get(c, rng.choice([1 - 1e-7, 1 + 1e-7]))
            if law == 'Rizk': kw.pop('rhop'); kw['dp'] = rng.log(1e-5, 5e-3)
            if law == 'Geldart_Ling':
                kw = dict(rhog=rg, D=D, mug=rng.log(5e-6, 5e-5), mp=47000*D**3*.7853981633974483*{1: rng.log(1e-3, 1), 2: rng.log(1, 1e3)}.get(c, 1 + rng.choice([1e-7, -1e-7])))
            T.call('geldart' if law == 'Geldart_Ling' else 'rizk' if law == 'Rizk' else 'salt', fn, kw, law=law)
    elif d == 'watkins':
        for _ in range(20*n):
            L = {1: rng.uniform(-5.11, -3), 2: rng.uniform(-3, 0), 3: rng.uniform(0, 1.69), 4: rng.choice([-4.160106231099973, -3.209113630523477, -1.2175106961204154, .4587657198189318, 1.1197669427405068])}[c]
            rg = rng.log(.5, 50)
            rl = rg*rng.log(3, 2000)
            f = exp(L)/(rg/rl)**.5
            kw = dict(x=1/(1 + f), rhol=rl, rhog=rg)
            if law != 'spline' or rng.random() < .5: kw['method'] = law
            if rng.random() < .6: kw['horizontal'] = rng.random() < .5
            T.call('watkins', Z.K_separator_Watkins, kw)
    elif d == 'york':
        for _ in range(20*n):
            p = {1: rng.log(.01, 1), 2: rng.uniform(1, 15), 3: rng.uniform(15, 40), 4: rng.log(40, 5500), 5: rng.log(5500, 5e4), 6: rng.choice([1, 15, 40, 5500])*(1 + rng.choice([1e-9, -1e-9, 1e-3, -1e-3]))}[c]
            kw = dict(P=p*PSI)
            if rng.random() < .6: kw['horizontal'] = rng.random() < .5
            T.call('york', Z.K_separator_demister_York, kw)
    elif d == 'souders':
        for _ in range(30*n):
            rg = rng.log(.5, 50)
            kw = dict(K=rng.log(.01, .3), rhol=rg*rng.log(1.01, 2000), rhog=rg)
            T.call('souders', Z.v_Souders_Brown, kw)
            T.call('souders', Z.v_Sounders_Brown, kw)
            kw = dict(D=rng.log(1e-6, 1e-2), Cd=rng.log(.1, 1e4))
            if rng.random() < .5: kw['g'] = rng.uniform(1, 20)
            T.call('ktheory', Z.K_Souders_Brown_theoretical, kw)
            T.call('ktheory', Z.K_Sounders_Brown_theoretical, kw)
    elif d == 'refused':
        for m in ('Spline', '', 'fake', 'york'): T.call('refused', Z.K_separator_Watkins, dict(x=.88, rhol=985.4, rhog=1.3, method=m))
