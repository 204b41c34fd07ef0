import random
from math import pi
from fluids import jet_pump as J

REF = [dict(rhop=998., rhos=1098., Ks=.11, Kp=.04, Km=.186, Kd=.12, nozzle_retracted=False, P1=426256.1597041593, P2=133600, P5=200000., Qp=.01, Qs=.01, d_mixing=.045, d_nozzle=.022382858811037732),
       dict(rhop=790.5, rhos=790.5, Km=.1, Kd=.1, Ks=.1, Kp=.03, nozzle_retracted=False, P1=550000., P2=170000., P5=192362.72123108635, Qp=.0005588580085548165, Qs=.0018975332068311196, d_mixing=.024, d_nozzle=.0048)]
VARS = ['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2', 'P5']


def pump(rng):
    dn = rng.log(.001, .2)
    p = dict(rhop=rng.uniform(600, 1500), rhos=rng.choice([rng.uniform(600, 1500), rng.log(1, 600)]), Kp=rng.choice([0, rng.log(.001, 1)]), Ks=rng.choice([rng.log(.01, 2), 0]))
    s = dict(d_nozzle=dn, d_mixing=dn*rng.uniform(1.3, 6), P2=rng.log(2e4, 1e6))
    s['Qp'] = pi/4*dn**2*rng.log(5, 50)
    R = dn**2/s['d_mixing']**2
    C = p['rhos']/p['rhop']
    lim = ((1 + p['Kp'])/(C*(1 + p['Ks'])))**.5*(1 - R)/R
    s['Qs'] = s['Qp']*min(lim*rng.uniform(.02, .95), 10)
    s['P1'] = s['P2'] + p['rhop']/2*(s['Qp']/(pi/4*dn*dn))**2*((1 + p['Kp']) - C*(1 + p['Ks'])*(s['Qs']/s['Qp']*R/(1 - R))**2)
    return p, s


def run(job, rng, T, tier):
    w, miss = job['what'], job['missing']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 8
    if w == 'inlet':
        for _ in range((25 if len(miss) == 1 else 2)*n):
            p, s = pump(rng)
            if miss == ['Qs'] and rng.random() < .2: s['P1'] = s['P2'] + (s['P1'] - s['P2'])*rng.uniform(1.01, 30)
            kw = dict(p, **s)
            for v in miss:
                if rng.random() < .5: kw.pop(v)
                else: kw[v] = None
            T.call('inlet', J.liquid_jet_pump_ancillary, kw)
    elif w == 'pump':
        for i in range((12 if len(miss) == 2 else 1)*n):
            must = False
            if i < 2 and len(miss) == 2 and not job['ret']:
                kw = dict(REF[i])
                must = True
            else:
                p, s = pump(rng)
                if rng.random() < .7: p.update(Km=rng.log(.01, 1), Kd=rng.log(.01, 1))
                if job['diff']: p['d_diffuser'] = s['d_mixing']*rng.uniform(1.2, 5)
                if not job['ret'] or rng.random() < .5: p['nozzle_retracted'] = job['ret']
                d = dict(s)
                d.pop('P1')
                try: s['P5'] = J.liquid_jet_pump(**p, **d)['P5']
                except Exception: s['P5'] = s['P2']*1.1
                if not (s['P2'] < s['P5'] < s['P1']) and 'P5' not in miss and len(miss) == 2: continue
                kw = dict(p, **s)
            for v in miss:
                if rng.random() < .5: kw.pop(v)
                else: kw[v] = None
            kw['max_variations'] = 40 if not must else 1000
            random.seed(rng.randrange(10**9))
            T.call('pump', J.liquid_jet_pump, kw, again=False, must=must)
    else:
        k = miss[0]
        for _ in range(80*n):
            kw = dict(V=rng.log(.01, 1000), P=rng.uniform(1, 101000))
            patm = 101325.
            if rng.random() < .4: patm = kw['P_atm'] = rng.uniform(6e4, 1.1e5)
            unit = dict(ryans=101325/760, seider=101325/760, hei=133.322387415, coker=3386.388640341)[k]
            lim = dict(ryans=(10, 100), seider=(10,), hei=(1, 3, 20, 90), coker=(3, 5, 8))[k]
            kw['P'] = rng.choice([patm - rng.log(.1, .99*patm/unit)*unit, patm - unit*rng.choice(lim)*(1 + rng.choice([1e-6, -1e-6])), kw['P']*patm/101325.])
            if k == 'hei' and rng.random() < .3: kw['V'] = 10*.3048**3*rng.choice([.1, .9999999, 1.0000001, 2])
            if k == 'coker':
                kw.pop('V')
                if rng.random() < .6: kw['conservative'] = rng.random() < .5
            T.call(k, dict(ryans=J.vacuum_air_leakage_Ryans_Croll, seider=J.vacuum_air_leakage_Seider, hei=J.vacuum_air_leakage_HEI2633, coker=J.vacuum_air_leakage_Coker_Worthington)[k], kw, site='leak-' + k)
