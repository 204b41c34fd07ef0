import re
from math import *
from fluids import geometry as G


def num(o):
    return {k: v for k, v in vars(o).items() if isinstance(v, (int, float, str)) or v is None}


def name(s):
    "the identifier read back: wavelength and amplitude in mm, both angles"
    m = re.fullmatch(r'L(.+)A(.+)B([^-]+)-([^-]+)', s)
    return [float(x) for x in m.groups()] if m else s


def run(job, rng, T, tier):
    g = set(job['given'])
    s = job['solid']
    for _ in range({'coil': 12, 'pitch': 16, 'tower': 12, 'simple': 160}.get(s, 8)*(1 if tier == 'quick' else 8)):
        T.trace(job['cell'])
        one(s, g, job['det'], rng, T)


def one(s, g, det, rng, T):
    if s == 'coil':
        Do = rng.log(.05, 20); Dt = Do*rng.uniform(.01, .99); N = rng.choice([1., 5., rng.log(.3, 100)]); p = Dt*rng.choice([1.0001, rng.log(1.01, 20)])
        H = N*p
        c = {'Dt': Dt, 'Do': Do, 'N': N, 'p': p}
        v = {'N': N, 'pitch': p, 'H': H, 'H_total': H + Dt, 'Do': Do, 'Do_total': Do + Dt}
        kw = {'Dt': Dt, **{k: v[k] for k in g}}
        if rng.random() < .5:
            c['Di'] = kw['Di'] = Dt*rng.uniform(.2, .99)
        if not det:
            T.call('refused', G.HelicalCoil, kw)
            return
        if rng.random() < .25:   # colliding turns, or a tube larger than the coil
            if rng.random() < .5:
                p = Dt*rng.choice([rng.uniform(.2, .99), .9999]); H = N*p
                v.update(pitch=p, H=H, H_total=H + Dt)
            else:
                Do = Dt*rng.uniform(.3, .999)
                v.update(Do=Do, Do_total=Do + Dt)
            T.call('refused', G.HelicalCoil, {**kw, **{k: v[k] for k in g}})
            return
        T.call('coil', G.HelicalCoil, kw, c=c, post=num)
    elif s == 'pitch':
        a = rng.choice([30., 45., 60., rng.uniform(1, 89)]); p = rng.log(1e-3, 1)
        v = {'angle': a, 'pitch': p, 'pitch_parallel': p*cos(radians(a)), 'pitch_normal': p*sin(radians(a))}
        kw = {k: v[k] for k in g}
        if det:
            T.call('pitch', G.pitch_angle_solver, kw, c={'angle': a, 'p': p, 'pp': v['pitch_parallel'], 'pn': v['pitch_normal']})
        else:
            T.call('refused', G.pitch_angle_solver, kw)
    elif s == 'tower':
        Ht = rng.log(30, 200)
        H_throat = 2/3.0*Ht if 'H_throat' not in g else Ht*rng.uniform(.5, .9)
        Hin = Ht*rng.uniform(.02, .2)
        if 'D_throat' not in g:
            Din = rng.log(20, 150); Dth = .63*Din
        else:
            Dth = rng.log(15, 100); Din = Dth*rng.uniform(1.1, 2)
        b = Dth*(H_throat - Hin)/sqrt(Din**2 - Dth**2)
        Dbase = Dth*sqrt(H_throat**2 + b*b)/b
        Dout = Dth*rng.uniform(1.01, 1.4)
        v = {'D_inlet': Din, 'D_base': Dbase, 'D_throat': Dth, 'H_throat': H_throat}
        kw = dict(H_inlet=Hin, D_outlet=Dout, H_outlet=Ht, **{k: v[k] for k in g})
        c = dict(v, H_inlet=Hin, D_outlet=Dout, H_outlet=Ht)
        if det:
            zs = [0.0, Hin, H_throat, Ht] + [rng.uniform(0, Ht) for _ in range(4)] + [H_throat*(1 - 1e-6), H_throat*(1 + 1e-6)]
            T.call('tower', G.HyperbolicCoolingTower, kw, c=c, zs=zs, given={k: v[k] for k in g} or {'H_inlet': Hin}, post=lambda o: dict(num(o), profile=[o.diameter(z) for z in zs]))
        else:
            T.call('refused', G.HyperbolicCoolingTower, kw)
    elif s == 'plate':
        a = rng.log(2e-4, 1e-2); w = a*rng.log(1.0, 40)
        kw = dict(amplitude=a, wavelength=w)
        c = {'a': a, 'w': w, 'angle': 45}
        if 'chevron_angles' in g:
            x, y = rng.uniform(10, 80), rng.uniform(10, 80)
            kw['chevron_angles'] = (x, y); c['angle'] = .5*(x + y)
        elif rng.random() < .7:
            kw['chevron_angle'] = c['angle'] = rng.uniform(10, 80)
        for k in ('width', 'length', 'd_port'):
            if k in g:
                kw[k] = c[k] = rng.log(.05, 3)
        if 'plates' in g:
            kw['plates'] = c['plates'] = rng.randrange(3, 400)
        if rng.random() < .3: kw['thickness'] = c['thickness'] = rng.log(1e-4, 5e-3)
        if 'chevron_angles' not in g and rng.random() < .7: kw['chevron_angle'] = c['angle'] = rng.randrange(10, 80)
        c['pair'] = list(kw.get('chevron_angles', (c['angle'], c['angle'])))
        T.call('plate', G.PlateExchanger, kw, c=c, post=lambda o: dict(num(o), pair=list(o.chevron_angles), name=name(o.plate_exchanger_identifier)))
    elif s in ('fin', 'offset'):
        h = rng.log(1e-3, .02); sp = rng.log(5e-4, .01); t = min(h, sp)*rng.uniform(.01, .3)
        c = {'h': h, 't': t, 's': sp}
        kw = dict(fin_height=h, fin_thickness=t, fin_spacing=sp)
        if s == 'offset':
            c['l'] = kw['fin_length'] = rng.log(1e-3, .1)
        for k in ('length', 'width'):
            if k in g:
                kw[k] = c[k] = rng.log(.05, 3)
        if 'plate_thickness' in g:
            kw['plate_thickness'] = c['plate_thickness'] = t*rng.uniform(.5, 4)
        if 'layers' in g:
            kw['layers'] = c['layers'] = rng.randrange(1, 60)
        T.call(s, G.RectangularFinExchanger if s == 'fin' else G.RectangularOffsetStripFinExchanger, kw, c=c, post=num)
    elif s == 'cooler':
        D = rng.log(.01, .06); a = rng.choice([30, 45, 60, 90, rng.uniform(20, 70)])
        fh = D*rng.uniform(.1, 1); t = rng.log(1e-4, 1e-3); dens = rng.uniform(50, 500); dens = min(dens, .9/t)
        p = (D + 2*fh)*rng.uniform(1.02, 2)
        pp, pn = p*cos(radians(a)), p*sin(radians(a))
        c = {'tube_rows': rng.randrange(1, 9), 'tube_passes': rng.randrange(1, 5), 'tubes_per_row': rng.randrange(2, 80), 'tube_length': rng.log(1, 15), 'tube_diameter': D, 'fin_thickness': t}
        kw = dict(c)
        c.update(fh=fh, dens=dens, pp=pp, pn=pn, corbels='corbels' in g, bundles_per_bay=1, parallel_bays=1)
        if 'pitch_ratio' in g:
            kw['pitch_ratio'] = p/D; kw['angle'] = a
        elif a == 90:
            kw.update({'pitch': p, 'angle': a})
        else:
            kw.update(rng.choice([{'pitch': p, 'angle': a}, {'pitch_parallel': pp, 'pitch_normal': pn}, {'angle': a, 'pitch_normal': pn}, {'pitch': p, 'pitch_parallel': pp}]))
        kw['fin_diameter' if 'fin_diameter' in g else 'fin_height'] = D + 2*fh if 'fin_diameter' in g else fh
        kw['fin_density' if 'fin_density' in g else 'fin_interval'] = dens if 'fin_density' in g else 1/dens
        if 'tube_thickness' in g:
            kw['tube_thickness'] = c['wall'] = D*rng.uniform(.02, .3)
        if c['corbels']:
            kw['corbels'] = True
        if 'bays' in g:
            for k in ('parallel_bays', 'bundles_per_bay'):
                kw[k] = c[k] = rng.randrange(1, 5)
            kw['fans_per_bay'] = c['fans_per_bay'] = rng.randrange(1, 5)
        if rng.random() < .5: kw['fan_diameter'] = c['fan_diameter'] = rng.uniform(1, 6)
        if rng.random() < .15:
            bad = dict(kw)
            m = rng.randrange(3)
            if m == 0:
                for k in ('fin_diameter', 'fin_height'):
                    bad.pop(k, None)
            elif m == 1:
                for k in ('fin_density', 'fin_interval'):
                    bad.pop(k, None)
            else:
                for k in ('pitch', 'pitch_normal', 'pitch_parallel', 'pitch_ratio', 'angle'):
                    bad.pop(k, None)
                if rng.random() < .5:
                    bad.update(pitch=p, pitch_ratio=p/D, angle=a)
            T.call('refused', G.AirCooledExchanger, bad)
            return
        T.call('cooler', G.AirCooledExchanger, kw, c=c, post=num)
    else:
        D = rng.log(1e-3, 50); L = D*rng.log(.01, 100); Di = D*rng.uniform(.01, .99)
        w = rng.choice(['A_cylinder', 'V_cylinder', 'A_hollow_cylinder', 'V_hollow_cylinder', 'A_multiple_hole_cylinder', 'V_multiple_hole_cylinder', 'sphericity', 'aspect_ratio', 'circularity', 'circle_segment_h_from_A'])
        if w in ('A_cylinder', 'V_cylinder'):
            kw = c = {'D': D, 'L': L}
        elif 'hollow' in w:
            kw = {'Di': Di, 'Do': D, 'L': L}; c = {'Di': Di, 'D': D, 'L': L}
        elif 'hole' in w:
            holes = [(D*rng.uniform(.001, .1), rng.randrange(1, 9)) for _ in range(rng.randrange(1, 5))]
            kw = {'Do': D, 'L': L, 'holes': holes}; c = {'D': D, 'L': L, 'holes': holes}
        elif w == 'sphericity':
            kw = c = {'A': rng.log(1e-6, 1e3), 'V': rng.log(1e-9, 1e3)}
        elif w == 'circle_segment_h_from_A':
            x = rng.choice([.5, rng.uniform(.02, .98), rng.log(1e-3, .1), 1 - rng.log(1e-3, .1)])
            A = D*D/4*(acos(1 - 2*x) - (1 - 2*x)*2*sqrt(x*(1 - x)))
            kw = c = {'A': A, 'D': D}
        elif w == 'aspect_ratio':
            kw = c = {'Dmin': Di, 'Dmax': D}
        else:
            kw = c = {'A': rng.log(1e-6, 1e3), 'P': rng.log(1e-3, 1e3)}
        T.call('simple', getattr(G, w), kw, what=w, c=c)
