from fluids import pump as M
from fluids.constants import hp


def run(job, rng, T, tier):
    k, o, b = job['kind'], job['opt'], job['band']
    T.trace(job['cell'])
    if k == 'tables':
        T.call('sizes', lambda: [list(x) for x in zip(M.nema_sizes_hp, M.nema_sizes)], {})
        for n, d in (('shaft', M.fan_bare_shaft_efficiencies), ('axial', M.fan_driven_axial_efficiencies), ('backward', M.fan_centrifugal_backward_efficiencies), ('cross', M.fan_crossflow_efficiencies), ('belt', M.belt_efficiencies), ('bearing', M.bearing_friction_factors)):
            T.call('table', lambda d=d: d, {}, name=n)
        for home, d in ((True, M.residential_power), (False, M.industrial_power)):
            for c in sorted(d):
                v = d[c]
                vs = v.voltage if isinstance(v.voltage, (tuple, list)) else (v.voltage,)
                T.event('country', a={}, home=home, code=c, out=dict(freq=v.freq, voltage=list(vs), plugs=list(v.plugs or ())))
        return
    for _ in range({'size': 6, 'csa': 3, 'drive': 12, 'underload': 40}.get(k, 40) * (1 if tier == 'quick' else 6)):
        if k == 'size':
            P = M.nema_sizes[b-1] if b else rng.log(1e-3, 180)
            lo = M.nema_sizes[b-2] if b > 1 else 1.0
            T.call('size', M.motor_round_size, dict(P=rng.choice([P, P*(1 + 1e-9), P*(1 - 1e-9), rng.near(P), rng.uniform(lo, P)])))
        elif k == 'csa':
            closed, poles, high = o
            Ps = M.nema_high_P if high else M.nema_min_P
            P = rng.uniform(Ps[b-1], Ps[b])*hp if 0 < b < len(Ps) else rng.choice([rng.log(.05, 1), rng.log(Ps[-1], 2000)])*hp
            if rng.random() < .2 and b < len(Ps): P = Ps[b]*hp
            kw = dict(P=P)
            if closed or rng.random() < .5: kw['closed'] = closed
            if poles != 2 or rng.random() < .5: kw['poles'] = poles
            if high or rng.random() < .5: kw['high_efficiency'] = high
            T.call('csa', M.CSA_motor_efficiency, kw)
        elif k == 'drive':
            Ps = M.VFD_efficiency_powers
            P = rng.uniform(Ps[b-1], Ps[b])*hp if 0 < b < len(Ps) else rng.choice([rng.log(.05, 3), rng.log(400, 2000)])*hp
            kw = dict(P=P)
            if rng.random() < .9: kw['load'] = rng.choice([rng.random(), rng.uniform(0, .03), rng.choice(M.VFD_efficiency_loads), 1.0])
            T.call('drive', M.VFD_efficiency, kw)
        elif k == 'underload':
            lims = [0.05, 1, 5, 10, 25, 60, 500]
            P = rng.choice([rng.uniform(lims[b-1], lims[b]), lims[b]*(1 - 1e-9), lims[b-1]*(1 + 1e-9)])*hp
            kw = dict(P=P)
            if rng.random() < .95: kw['load'] = rng.choice([rng.random(), rng.near(M._efficiency_ones[b-1]), 1.0, rng.uniform(0, .05)])
            T.call('underload', M.motor_efficiency_underloaded, kw)
        elif k == 'current':
            kw = dict(P=rng.log(1, 1e6), V=rng.choice([120, 208, 240, 480, rng.log(50, 1e4)]))
            if rng.random() < .6: kw['PF'] = rng.uniform(.3, 1)
            if o[0] == 0: T.call('refused', M.current_ideal, dict(kw, phase=rng.choice([0, 2, 4, -1, 6])))
            else:
                if o[0] == 1 or rng.random() < .6: kw['phase'] = o[0]
                T.call('current', M.current_ideal, kw)
        elif k == 'speed':
            kw = dict(Q=rng.log(1e-5, 10), H=rng.log(.1, 2000))
            if rng.random() < .7: kw['n'] = rng.uniform(100, 5000)
            T.call('ns', M.specific_speed, kw)
            T.call('ds', M.specific_diameter, dict(Q=rng.log(1e-5, 10), H=rng.log(.1, 2000), D=rng.log(.01, 3)))
            kw = dict(f=rng.choice([50, 60, rng.uniform(1, 400)]))
            if rng.random() < .7: kw['poles'] = rng.choice([2, 4, 6, 8, 12, 24])
            T.call('sync', M.speed_synchronous, kw)
        elif k == 'corripio':
            T.call('corripioP', M.Corripio_pump_efficiency, dict(Q=rng.log(1e-4, 1)))
            T.call('corripioM', M.Corripio_motor_efficiency, dict(P=rng.log(100, 2e6)))
