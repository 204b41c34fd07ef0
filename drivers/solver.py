import math
from math import inf, nan
from fluids import numerics as N


def fam(name, c, k, s):
    """f, f', f'' of a function whose only sign change is at c"""
    def cubic(x): u = x - c; return s*u*(u*u + k), s*(3*u*u + k), s*6*u
    def expm(x): u = k*(x - c); e = math.exp(min(u, 700)); return s*math.expm1(min(u, 700)), s*k*e, s*k*k*e
    def atan(x): u = max(-1e60, min(k*(x - c), 1e60)); return s*math.atan(u), s*k/(1 + u*u), -2*s*k*k*u/(1 + u*u)**2
    def sinh(x): u = max(-300., min(k*(x - c), 300.)); return s*math.sinh(u), s*k*math.cosh(u), s*k*k*math.sinh(u)
    def ninth(x): u = x - c; return s*u**9, 9*s*u**8, 72*s*u**7
    def cbrt(x):
        u = x - c
        r = abs(u)**(1/3.)
        return (s*math.copysign(r, u) if u else 0.0), (s/(3*r*r) if u else inf), (-2*s/(9*u*r*r) if u else 0.0)
    def step(x): return (s if x >= c else -s), 0.0, 0.0
    def ramp(x):
        u = x - c
        return s*max(-1.0, min(1.0, k*u)), (s*k if abs(k*u) < 1 else 0.0), 0.0
    def hole(x):
        u = x - c
        return (nan if u > 3*abs(k) else s*u*(1 + .3*u*u/k/k)), s*(1 + .9*u*u/k/k), s*1.8*u/k/k
    def wave(x): u = x - c; return s*(u + .8*math.sin(k*u)/k), s*(1 + .8*math.cos(k*u)), -s*.8*k*math.sin(k*u)
    return locals()[name]


def run(job, rng, T, tier):
    m, fl, flags = job['m'], job['fam'], set(job['flags'])
    for rep in range(job['n']*(1 if tier == 'quick' else 6)):
        c = rng.choice([-1, 1])*rng.log(.01, 1000)
        if rng.random() < .1: c = rng.choice([1.0, -2.0, 100.0])
        w = abs(c)*rng.log(.05, 3) + .1
        k = {'cubic': w*w*rng.log(.05, 5), 'hole': w}.get(fl, rng.log(.3, 3)/w)
        s = rng.choice([-1, 1])*rng.log(1e-3, 1e3)
        f = fam(fl, c, k, s)
        T.trace(job['cell'])
        a = dict(root=c)
        kw = {}
        below, above = c - w*rng.uniform(.1, 1), c + w*rng.uniform(.1, 1)
        if m in ('bisect', 'ridder', 'brenth'):
            xa, xb = below, above
            if 'wide' in flags: xa, xb = c - w*rng.log(1, 1e3), c + w*rng.log(1, 1e3)
            if 'swap' in flags: xa, xb = xb, xa
            if 'same' in flags: xa = xb + (xb - c)*rng.uniform(.1, 1)
            if 'atend' in flags:
                if rng.random() < .5: xa = c
                else: xb = c
            if 'xtol' in flags: kw['xtol'] = rng.log(1e-9, 1e-2)*w
            if 'rtol' in flags: kw['rtol'] = rng.log(1e-9, 1e-2)
            if 'ytol' in flags: kw['ytol'] = abs(s)*rng.log(1e-8, 1e-2)
            if 'few' in flags: kw['maxiter'] = rng.choice([1, 2, 3, 5])
            if 'ends' in flags: kw.update(fa=f(xa)[0], fb=f(xb)[0])
            if 'q' in flags: kw['q'] = True
            a.update(kw, a=xa, b=xb)
            pos = (xa, xb)
            fn = getattr(N, m)
        elif m == 'onesided':
            # valid side is towards c; flat beyond e
            side = rng.choice([-1, 1])
            e = c + side*w*rng.uniform(.3, 1.5)
            flat = f(e)[0]
            g = f
            f = lambda x: g(x) if (x - e)*side < 0 else (flat, 0.0, 0.0)
            x0 = c - side*w*rng.uniform(.1, 1) if rng.random() < .7 else c + (e - c)*rng.uniform(.2, .6)
            x1 = x0 + .001*w*rng.choice([-1, 1])
            xf = e + side*w*rng.uniform(.01, 2)
            kw = dict(ytol=abs(s)*rng.log(1e-9, 1e-3)*(w if fl == 'wave' else 1))
            if 'noxtol' in flags: kw['xtol'] = None
            if 'x1' in flags: kw['x1'] = x1
            if 'given' in flags: kw.update(y_flat=flat, y0=f(x0)[0])
            if 'few' in flags: kw['maxiter'] = 2
            a.update(kw, x0=x0, x_flat=xf)
            pos = (x0, xf)
            fn = N.one_sided_secant
        else:
            x0 = rng.choice([below, above])
            if 'far' in flags: x0 = c + rng.choice([-1, 1])*w*rng.log(2, 30)
            lo, hi = min(c, x0, below) - w*rng.uniform(.01, 1), max(c, x0, above) + w*rng.uniform(.01, 1)
            if rng.random() < .25:   # a limit right beside the starting point
                if x0 < c: lo = x0 - w*rng.choice([0, rng.log(1e-5, 1e-3)])
                else: hi = x0 + w*rng.choice([0, rng.log(1e-5, 1e-3)])
            if 'out' in flags:
                # no root inside the limits
                if rng.random() < .5: lo, hi, x0 = c + w*.2, c + w*5, c + w*rng.uniform(.25, 3)
                else: lo, hi, x0 = c - w*5, c - w*.2, c - w*rng.uniform(.25, 3)
            if flags & {'low', 'out'}: kw['low'] = lo
            if flags & {'high', 'out'}: kw['high'] = hi
            if 'ytol' in flags: kw['ytol'] = abs(s)*rng.log(1e-9, 1e-3)*rng.choice([1, w])
            if 'noxtol' in flags: kw['xtol'] = None
            if 'xtol' in flags: kw['xtol'] = rng.log(1e-12, 1e-3)
            if 'bis' in flags: kw['bisection'] = True
            if 'eval' in flags: kw['require_eval'] = True
            if 'damp' in flags: kw['damping'] = rng.uniform(.4, 1.1)
            if 'few' in flags: kw['maxiter'] = rng.choice([2, 3, 4])
            if 'noreq' in flags: kw['require_xtol'] = False
            if 'more' in flags: kw['additional_guesses'] = True
            if m == 'secant':
                if 'x1' in flags: kw['x1'] = rng.choice([v for v in (below, above) if v != x0]) if 'out' not in flags else (lo + hi)/2
                if 'f0' in flags: kw['f0'] = f(x0)[0]
                if 'x1' in flags and 'f0' in flags: kw['f1'] = f(kw['x1'])[0]
            a.update(kw, x0=x0)
            if 'dfun' in flags: kw['damping_func'] = N.damping_maintain_sign
            pos = (x0,)
            fn = getattr(N, m)
        T.event('start', m=m, fam=fl, flags=flags, a=a)
        T.cell = None
        used = [0]
        extra = rng.uniform(.5, 2)

        def look(x, r):
            used[0] += 1
            if used[0] > 1000: raise RuntimeError('too many evaluations')
            T.event('eval', x=x, y=r[0], d=r[1], c=r[2])
            return r
        if m in ('bisect', 'ridder', 'brenth', 'secant', 'onesided'):
            call = lambda x, *args, **kws: look(x, f(x))[0]
        elif m == 'halley':
            call = lambda x, *args, **kws: look(x, f(x))
        elif 'calls' in flags:
            call = lambda x, *args, **kws: look(x, f(x))[0]
            kw['fprime'] = lambda x, *args, **kws: f(x)[1]
            if 'hal' in flags: kw['fprime2'] = lambda x, *args, **kws: f(x)[2]
        else:
            kw['fprime'] = True
            if 'hal' in flags:
                kw['fprime2'] = True
                call = lambda x, *args, **kws: look(x, f(x))
            else:
                call = lambda x, *args, **kws: look(x, f(x))[:2]
        if 'args' in flags:
            inner = call
            if m in ('bisect', 'ridder', 'onesided'):
                kw['args'] = (extra, 7)
                call = lambda x, p, q: inner(x) if p == extra and q == 7 else 1/0
            elif m == 'halley':
                kw['args'] = (extra,)
                call = lambda x, p: inner(x) if p == extra else 1/0
            else:
                kw['args'] = (extra,)
                kw['kwargs'] = {'q': 7}
                call = lambda x, p, q: inner(x) if p == extra and q == 7 else 1/0
                if 'calls' in flags and m == 'newton':
                    kw['fprime'] = lambda x, p, q: f(x)[1] if p == extra and q == 7 else 1/0
                    if 'hal' in flags: kw['fprime2'] = lambda x, p, q: f(x)[2] if p == extra and q == 7 else 1/0
        out = T._do(fn, (call,) + pos, kw, 20)
        T.event('end', out=out)
