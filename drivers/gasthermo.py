from math import *
from fluids import compressible as C


def run(job, rng, T, tier):
    c, u = job['call'], job['unknown']
    for _ in range(30 if tier == 'quick' else 80):
        T.trace(job['cell'])
        k = rng.choice([1.4, rng.uniform(1.02, 1.67), 5/3.])
        P1 = rng.log(1e3, 1e7); P2 = P1*rng.log(1.01, 100)
        if rng.random() < .4:
            P1, P2 = P2, P1
        T1 = rng.uniform(100, 1500)
        eta = rng.uniform(.3, 1) if rng.random() < .8 else 1.0
        Z = rng.choice([1.0, rng.uniform(.3, 1.2)])
        if c == 'isothermal_work':
            n = job['stages'] + 1
            ps = [P1] + [rng.log(1e3, 1e7) for _ in range(n)]
            if len(set(ps)) < len(ps):
                continue
            for a, b in zip(ps, ps[1:]):
                T.call(c, C.isothermal_work_compression, dict(P1=a, P2=b, T=T1, Z=Z), u=u, atol=1e-9)
            T.call(c, C.isothermal_work_compression, dict(P1=ps[0], P2=ps[-1], T=T1, Z=Z), u=u, atol=1e-7, total=True)
        elif c == 'isentropic_work':
            kw = dict(T1=T1, k=k)
            if rng.random() < .7:
                kw['Z'] = Z
            else:
                Z = 1.0
            v = dict(P1=P1, P2=P2, eta=eta)
            v['W'] = k/(k - 1)*Z*8.31446261815324*T1*((P2/P1)**((k - 1)/k) - 1)/eta
            a = {x: y for x, y in v.items() if x != u}
            o = T.call(c, C.isentropic_work_compression, {**a, **kw}, u=u, atol=1e-9, truth=v[u])
            if rng.random() < .1:
                b = dict(v)
                for x in rng.sample(sorted(b), rng.choice([0, 2, 3, 4])):
                    b.pop(x)
                T.call('refused', C.isentropic_work_compression, {**b, **kw})
        elif c == 'T_rise':
            kw = dict(T1=T1, P1=P1, P2=P2, k=k)
            if rng.random() < .7:
                kw['eta'] = eta
            T.call(c, C.isentropic_T_rise_compression, kw, u=u, atol=1e-9)
        elif c == 'efficiency':
            if P2 < P1:
                P1, P2 = P2, P1
            kw = dict(P1=P1, P2=P2, k=k)
            ep = rng.uniform(.3, 1)
            a = (P2/P1)**((k - 1)/k) - 1; es = a/((P2/P1)**((k - 1)/(k*ep)) - 1)
            v = {'eta_s': es, 'eta_p': ep}
            T.call(c, C.isentropic_efficiency, {**kw, **{x: y for x, y in v.items() if x != u}}, u=u, atol=1e-9, truth=v[u])
            T.call('refused', C.isentropic_efficiency, kw if rng.random() < .5 else {**kw, **v})
        elif c == 'exponent':
            n = k*rng.uniform(1.001, 1.3)
            v = {'n': n, 'eta_p': n*(k - 1)/(k*(n - 1))}
            T.call(c, C.polytropic_exponent, {'k': k, **{x: y for x, y in v.items() if x != u}}, u=u, atol=1e-9, truth=v[u])
            T.call('refused', C.polytropic_exponent, {'k': k} if rng.random() < .5 else {'k': k, **v})
        elif c == 'critical':
            T.call(c, C.T_critical_flow if u == 'T' else C.P_critical_flow, {u: T1 if u == 'T' else P1, 'k': k}, u=u, atol=0.0)
        elif c == 'critical_isothermal':
            D = rng.log(.005, 2); fd = rng.log(.003, .2)
            x = rng.choice([rng.log(1e-2, 10), rng.log(1, 1e3), rng.log(600, 1e6), rng.uniform(250, 350), rng.uniform(700, 800)])
            T.call(c, C.P_isothermal_critical_flow, dict(P=P1, fd=fd, D=D, L=x*D/fd))
        elif c == 'is_critical':
            P2 = rng.choice([P2, rng.near(P1*(2/(k + 1))**(k/(k - 1)))])
            T.call(c, C.is_critical_flow, dict(P1=P1, P2=P2, k=k))
        elif c == 'stagnation_energy':
            T.call(c, C.stagnation_energy, dict(V=rng.choice([0., rng.log(1e-3, 1e3), -3.])), u=u, atol=0.0)
        elif c == 'stagnation':
            Tst = T1*rng.log(1.0001, 5)
            Pst = C.P_stagnation(P=P1, T=T1, Tst=Tst, k=k) if u == 'T' else None
            if u == 'P':
                T.call(c, C.P_stagnation, dict(P=P1, T=T1, Tst=Tst, k=k), u=u, atol=0.0)
            else:
                T.call(c, C.T_stagnation, dict(T=T1, P=P1, Pst=Pst, k=k), u=u, atol=0.0, truth=Tst)
        else:
            T.call(c, C.T_stagnation_ideal, dict(T=T1, V=rng.choice([0., rng.log(1e-2, 1e3)]), Cp=rng.log(100, 1e4)), u=u, atol=0.0)
