from math import radians, tan, atan, pi, degrees
from fluids import fittings as K
from fluids.friction import Clamond, friction_factor, ft_Crane


def call(T, fn, m, kw, default='Rennels', rng=None, **x):
    kw = dict(kw)
    if m and not (m == default and rng.random() < .3):
        kw['method'] = m
    elif m and rng.random() < .2 and fn not in ('contraction_sharp', 'contraction_conical', 'diffuser_sharp', 'diffuser_conical_staged'):
        kw['method'] = None
    T.call(fn, getattr(K, fn), kw, method=m, **x)


def avoid(v, *pts):
    "keep off a branch point by more than rounding"
    return all(abs(v/p - 1) > 1e-9 for p in pts)


def run(job, rng, T, tier):
    fn, m, b0, ang0, Re0 = job['fn'], job['method'], float(job['ratio']), float(job['angle']), float(job['flow'])
    T.trace(job['cell'])
    f = getattr(K, fn)
    for _ in range(3 if tier == 'quick' else 12):
        b = rng.choice([b0, rng.near(b0), min(.97, b0*rng.log(.8, 1.2))])
        ang = rng.choice([ang0, rng.near(ang0), ang0*rng.log(.85, 1.17)])
        Re = rng.choice([Re0, rng.near(Re0), Re0*rng.log(.3, 5)])
        if fn == 'contraction_conical' and rng.random() < .1: ang = rng.uniform(.6, 1.97)
        if m == 'Miller' and fn.startswith('bend') and rng.random() < .1: Re = rng.log(1.01e8, 1e9)
        D = rng.choice([rng.log(5e-3, 3), rng.near(.01)])
        rough = rng.choice([0.0, D*rng.log(1e-6, 2e-2)])
        fd = rng.uniform(.008, .06)
        L = D*rng.choice([rng.log(1e-3, 50), rng.log(.3, 20)])
        unk = m == 'unknown'
        mm = rng.choice(['rennels', 'BAD', 'Crane2', '']) if unk else m
        if unk and fn in ('entrance_distance_45_Miller', 'entrance_beveled_orifice', 'exit_normal', 'helix', 'spiral', 'contraction_beveled', 'diffuser_curved', 'diffuser_pipe_reducer'):
            continue
        x = {}

        def go(kw, **ex):
            if unk:
                T.call('refused', f, dict(kw, method=mm))
            else:
                call(T, fn, m, kw, rng=rng, **ex)
        def fdkw(D0):
            "friction factor given, or to be found from Re and roughness"
            if rng.random() < .5:
                return dict(fd=fd), 0.0
            kw = dict(Re=Re)
            if rough and rng.random() < .7: kw['roughness'] = rough
            return kw, Clamond(Re, kw.get('roughness', 0.0)/D0, fast=False)
        if fn == 'entrance_sharp':
            go({})
        elif fn == 'exit_normal':
            T.call(fn, f, {})
        elif fn == 'entrance_distance':
            r = rng.choice([b*.3, .05, .3, .289145, rng.near(.05), rng.near(.3), rng.log(1e-3, 3)])
            kw = dict(Di=D, t=D*r)
            if m == 'Crane' and rng.random() < .5: kw.pop('t')
            elif not unk and m != 'Crane' and rng.random() < .1:
                T.call('refused', f, dict(Di=D, method=m))
            if m == 'Idelchik' and rng.random() < .7: kw['l'] = D*rng.choice([0, 1, 15, rng.log(1e-3, 12), b])
            go(kw)
        elif fn == 'entrance_distance_45_Miller':
            T.call(fn, f, dict(Di=D, Di0=D*(1 + 2*rng.choice([.3, b*.4, rng.log(1e-3, 1), rng.near(.3)]))))
        elif fn == 'entrance_angled':
            if unk: T.call('refused', f, dict(angle=ang, method=mm))
            else: T.call(fn, f, dict(dict(angle=min(ang, 90)), **rng.choice([{}, dict(method='Idelchik'), dict(method=None)])))
        elif fn == 'entrance_rounded':
            go(dict(Di=D, rc=D*rng.choice([b*rng.choice([1, .2]), 0.0, .01, .02, .04, .06, .15, .16, .2, .3, 1.0, rng.near(.15), rng.near(1), 1.4, rng.log(1e-3, 3)])))
        elif fn == 'entrance_beveled':
            go(dict(Di=D, l=D*rng.choice([b, rng.log(.01, 2)]), angle=ang if ang <= 90 else rng.uniform(1, 90)))
        elif fn == 'entrance_beveled_orifice':
            Do = D*b
            T.call(fn, f, dict(Di=D, Do=Do, l=Do*rng.log(.01, 1), angle=ang if ang <= 90 else rng.uniform(1, 90)))
        elif fn in ('bend_rounded', 'bend_miter'):
            rr = rng.choice([.4, .5, .7, 1, 1.5, 2, 5, 10, 20, 60, rng.uniform(.5, 2), rng.log(.5, 25), rng.near(9.85), rng.near(50)])
            kw = dict(Di=D, angle=ang)
            if fn == 'bend_rounded':
                kw.update(rng.choice([dict(rc=rr*D), dict(rc=rr*D), dict(bend_diameters=rr), {}]))
            Rm = min(Re, 1e6)
            x = dict(ft=ft_Crane(D), fs=friction_factor(Re=Rm, eD=0.0))
            q = rough if rng.random() < .6 else 0.0
            if m in ('Miller', 'Ito', 'Blevins') or unk:
                kw['Re'] = Re
                if not unk and rng.random() < .05:
                    T.call('refused', f, dict(Di=D, angle=ang, method=m))
            if m in ('Miller', 'Ito') and q: kw['roughness'] = q
            if m == 'Miller' and rng.random() < .6: kw['L_unimpeded'] = L
            if m == 'Rennels' and fn == 'bend_rounded':
                g, x['f0'] = fdkw(D)
                kw.update(g)
                if rng.random() < .05: T.call('refused', f, dict(Di=D, angle=ang))
            x['fr'] = friction_factor(Re=Rm, eD=q/D)
            if fn == 'bend_miter':
                if m in ('Rennels', 'Blevins') and rng.random() < .7: kw.pop('Di')
            go(kw, **x)
            if fn == 'bend_rounded' and m == 'Crane':
                T.call(fn, K.bend_rounded_Crane, {k: v for k, v in kw.items() if k in ('Di', 'angle', 'rc', 'bend_diameters')}, method=m, **x)
                T.call('refused', K.bend_rounded_Crane, dict(Di=D, angle=ang, rc=3*D, bend_diameters=rng.choice([1, 3.01, 5])))
            if m == 'Ito' and fn == 'bend_rounded': T.call(fn, K.bend_rounded_Ito, kw, method=m, **x)
            if m == 'Miller':
                T.call(fn, K.bend_rounded_Miller if fn == 'bend_rounded' else K.bend_miter_Miller, kw, method=m, **x)
        elif fn == 'helix':
            T.call(fn, f, dict(Di=D, rs=D*rng.log(1, 50), pitch=D*rng.log(1, 20), N=rng.randint(1, 40), fd=fd))
        elif fn == 'spiral':
            r1 = D*rng.log(1, 20)
            T.call(fn, f, dict(Di=D, rmin=r1, rmax=r1*rng.log(1.05, 20), pitch=D*rng.log(1, 3), fd=fd))
        elif fn == 'contraction_sharp':
            g, f0 = {}, 0.0
            if m == 'Hooper' or unk:
                g, f0 = fdkw(D)
                if 'Re' not in g: g['Re'] = Re
                else: f0 = Clamond(Re, g.get('roughness', 0.0)/D)
                if not unk and rng.random() < .1: T.call('refused', f, dict(Di1=D, Di2=D*b, method=m, fd=fd))
            go(dict(Di1=D, Di2=D*b, **g), f0=f0)
        elif fn == 'contraction_round':
            go(dict(Di1=D, Di2=D*b, rc=D*b*rng.choice([0.0, .01, .04, .1, .12, .2, rng.near(.1), rng.log(1e-3, .4)])))
        elif fn in ('contraction_conical', 'diffuser_conical'):
            up, dn = (D, D*b) if fn == 'contraction_conical' else (D*b, D)
            kw = dict(Di1=up, Di2=dn)
            if not avoid(ang, 20, 45, 60): ang *= rng.choice([1 - 1e-6, 1 + 1e-6])
            way = rng.choice(['l', 'angle', 'angle', 'both'])
            th = min(ang, 180)
            l = (D - D*b)/(2*tan(radians(th)/2))
            if way in ('l', 'both'):
                kw['l'] = l*rng.log(.5, 1.5) if way == 'both' else l
                if fn == 'contraction_conical' and way == 'l' and rng.random() < .1 and m != 'Rennels': kw['l'] = 0
            if way != 'l': kw['angle'] = th
            f0 = 0.0
            if m in ('Rennels', 'Hooper') or unk:
                base = {('contraction_conical', 'Rennels'): dn, ('diffuser_conical', 'Rennels'): dn}.get((fn, m), up)
                g, f0 = fdkw(base)
                if m == 'Hooper':
                    if 'Re' not in g: g['Re'] = Re
                    else: f0 = Clamond(Re, g.get('roughness', 0.0)/base)
                    if rng.random() < .1: T.call('refused', f, dict(Di1=up, Di2=dn, angle=th, method=m, fd=fd))
                elif m == 'Rennels' and rng.random() < .1: T.call('refused', f, dict(Di1=up, Di2=dn, angle=th))
                kw.update(g)
            t = 2*atan(abs(D - D*b)/(2*kw['l'])) if kw.get('l') and (way == 'l' or fn == 'diffuser_conical') else radians(th)
            # branch points in the angle: computed degrees may fall on either side
            if m in ('Rennels', 'Crane', 'Hooper') and fn == 'diffuser_conical' or m in ('Crane', 'Hooper'):
                if not avoid(degrees(t), 20, 45, 60): kw.pop('l', 0); kw['angle'] = th; way = 'angle'
            if rng.random() < .05 and not unk: T.call('refused', f, dict(Di1=up, Di2=dn, fd=fd, Re=Re))
            go(kw, f0=f0)
            if m == 'Crane' and fn == 'contraction_conical' and way != 'both':
                T.call(fn, K.contraction_conical_Crane, kw, method=m, f0=0.0)
            if m == 'Crane' and fn == 'diffuser_conical':
                T.call('diffuser_crane', K.diffuser_conical_Crane, dict(Di1=up, Di2=dn, **({'l': kw['l']} if way == 'l' else {'angle': th})))
        elif fn == 'contraction_beveled':
            a = min(ang, 170)
            T.call(fn, f, dict(Di1=D, Di2=D*b, l=rng.uniform(.05, 1)*(D - D*b)/(2*tan(radians(a)/2)), angle=a))
        elif fn == 'diffuser_sharp':
            g, f0 = {}, 0.0
            if m == 'Hooper':
                g, f0 = fdkw(D*b)
                if 'Re' not in g: g['Re'] = Re
                else: f0 = Clamond(Re, g.get('roughness', 0.0)/(D*b))
                if rng.random() < .1: T.call('refused', f, dict(Di1=D*b, Di2=D, method=m, fd=fd))
            go(dict(Di1=D*b, Di2=D, **g), f0=f0)
        elif fn == 'diffuser_conical_staged':
            n = rng.randint(1, 4)
            Ds = sorted(D*b*(1/b)**rng.uniform(.05, .95) for _ in range(n))
            ls = [rng.uniform(.1, 3)*D for _ in range(n + 1)]
            al = [D*b] + Ds + [D]
            if not all(avoid(degrees(2*atan((q - p)/2/l)), 20, 45, 60) and p/q < .9999 for p, q, l in zip(al, al[1:], ls)): continue
            go(dict(Di1=D*b, Di2=D, DEs=Ds, ls=ls, fd=fd))
        elif fn == 'diffuser_curved':
            T.call(fn, f, dict(Di1=D*b, Di2=D, l=D*b*rng.log(.1, 3)))
        elif fn == 'diffuser_pipe_reducer':
            T.call(fn, f, dict(dict(Di1=D*b, Di2=D, l=D*rng.log(.1, 3), fd1=fd), **rng.choice([{}, dict(fd2=rng.uniform(.008, .06))])))
