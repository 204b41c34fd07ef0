import math
from fluids import numerics as N
from fluids.numerics import polynomial_evaluation as E, polynomial_roots as PR, polynomial_utils as U

SUF = ['', '_and_der', '_and_der2', '_and_der3', '_and_der4']
FAM = {('poly', 'plain'): ('horner', 4), ('poly', 'exp'): ('exp_horner_backwards', 3), ('poly', 'ln'): ('horner_backwards_ln_tau', 3), ('poly', 'expln'): ('exp_horner_backwards_ln_tau', 2),
       ('stable', 'plain'): ('horner_stable', 4), ('stable', 'exp'): ('exp_horner_stable', 3), ('stable', 'ln'): ('horner_stable_ln_tau', 3), ('stable', 'expln'): ('exp_horner_stable_ln_tau', 2),
       ('cheb', 'plain'): ('chebval', 0), ('cheb', 'exp'): ('exp_cheb', 3), ('cheb', 'ln'): ('chebval_ln_tau', 3), ('cheb', 'expln'): ('exp_cheb_ln_tau', 2)}


def call(T, op, fn, kw, **x):
    out = T.call(op, fn, kw, **x)
    T.cell = None
    return out


def get(name): return getattr(E, name, None) or getattr(N, name)


def series(rng, n, s=2.0):
    c = [rng.choice([rng.uniform(-s, s), rng.uniform(-s, s), rng.uniform(-s, s), float(rng.randrange(-2, 3))]) for _ in range(n)]
    if n and not any(c): c[0] = 1.0
    return c


def ev(job, rng, T):
    b, f, n, where = job['b'], job['f'], job['n'], job['x']
    name, top = FAM[b, f]
    ln, ex = 'ln' in f, 'exp' in f
    lo = rng.uniform(-3, 2); hi = lo + rng.uniform(.5, 4)
    off, scl = (-hi - lo)/(hi - lo), 2.0/(hi - lo)
    if ln:
        Tc = rng.uniform(150, 900)
        tr = {'in': rng.uniform(.2, .97), 'edge': rng.choice([.999, .01, .9]), 'out': rng.choice([1.0, 1.0000001, 1.7])}[where]
        base = {'T': Tc*tr if tr != 1.0 else Tc, 'Tc': Tc}
        lo, hi = -6.0, -.1
        off, scl = (-hi - lo)/(hi - lo), 2.0/(hi - lo)
    else:
        base = {'x': {'in': rng.uniform(lo, hi), 'edge': rng.choice([lo, hi, 0.0, 1.0, -1.0]), 'out': hi + rng.uniform(0, 2)}[where]}
    for nd in range(top + 1):
        fn = get(name + SUF[nd])
        kw = dict(base)
        if b == 'cheb':
            if rng.random() < .5:
                cs = [series(rng, n)]
                for _ in range(nd):
                    cs.append(N.chebder(list(cs[-1]), scl=scl) or [0.0])
            else: cs = [series(rng, max(1, n - k)) for k in range(nd + 1)]
            kw['c' if name == 'chebval' else 'coeffs'] = cs[0]
            for k in range(nd): kw['der%s_coeffs' % ('' if k == 0 else k + 1)] = cs[k + 1]
            if name != 'chebval' or rng.random() < .7: kw.update(offset=off, scale=scl)
        else:
            cs = [series(rng, n)]
            kw['coeffs'] = cs[0]
            if b == 'stable': kw.update(offset=off, scale=scl)
        call(T, 'ev', fn, kw, c=cs, base=b, ln=ln, ex=ex, nd=nd)
    if b == 'poly' and f == 'plain': call(T, 'ev', E.horner_backwards, dict(kw), c=cs, base=b, ln=ln, ex=ex, nd=0)


def one(job, rng, T):
    n, k = job['n'], job['k']
    c = series(rng, n)
    lo = rng.uniform(-3, 300); hi = lo + rng.uniform(.5, 400)
    off, scl = U.polynomial_offset_scale(lo, hi)
    if k == 'log': call(T, 'log', E.horner_log, {'coeffs': c, 'log_coeff': rng.uniform(-3, 3), 'x': 10**rng.uniform(-2, 2)})
    elif k == 'stablelog':
        lo = abs(lo) + .1; hi = lo + rng.uniform(.5, 400)
        off, scl = U.polynomial_offset_scale(lo, hi)
        call(T, 'log', E.horner_stable_log, {'x': rng.uniform(lo, hi), 'coeffs': c, 'offset': off, 'scale': scl, 'log_coeff': rng.uniform(-3, 3)})
    elif k == 'domain': call(T, 'domain', E.horner_domain, {'x': rng.choice([lo, hi, rng.uniform(lo, hi)]), 'coeffs': c, 'xmin': lo, 'xmax': hi})
    else:
        big = [0.0]*(n - 1) + [rng.choice([800.0, 709.0, -800.0, 5000.0])]
        call(T, 'ev', E.exp_horner_stable, {'x': .3, 'coeffs': big, 'offset': 0.0, 'scale': 1.0}, c=[big], base='stable', ln=False, ex=True, nd=0)
        Tc = 500.0
        call(T, 'ev', E.exp_horner_stable_ln_tau, {'T': 400.0, 'Tc': Tc, 'coeffs': big, 'offset': 0.0, 'scale': 1.0}, c=[big], base='stable', ln=True, ex=True, nd=0)
        cb = [big[-1]] + [0.0]*(n - 1)
        call(T, 'ev', N.exp_cheb, {'x': .3, 'coeffs': cb, 'offset': 0.0, 'scale': 1.0}, c=[cb], base='cheb', ln=False, ex=True, nd=0)
        call(T, 'ev', N.exp_cheb_ln_tau, {'T': 400.0, 'Tc': Tc, 'coeffs': cb, 'offset': 0.0, 'scale': 1.0}, c=[cb], base='cheb', ln=True, ex=True, nd=0)


def tr(job, rng, T):
    n, k = job['n'], job['k']
    c = series(rng, n)
    lo = rng.choice([rng.uniform(-3, 3), rng.uniform(50, 300)]); hi = lo + rng.choice([rng.uniform(.5, 4), rng.uniform(50, 400)])
    if k == 'der':
        call(T, 'der', U.polyder, {'c': list(c)})
        for m in range(4): call(T, 'der', U.polyder, {'c': list(c), 'm': m})
    elif k == 'int': call(T, 'int', U.polyint, {'coeffs': c})
    elif k == 'intstable': call(T, 'intstable', U.polyint_stable, {'coeffs': c, 'xmin': lo, 'xmax': hi})
    elif k == 'overx': call(T, 'overx', U.polyint_over_x, {'coeffs': c})
    elif k == 'overxstable':
        if n == 0: c = [1.0]
        call(T, 'overxstable', U.polyint_over_x_stable, {'coeffs': c, 'xmin': lo, 'xmax': hi})
    elif k == 'unstable':
        call(T, 'unstable', U.stable_poly_to_unstable, {'coeffs': c, 'low': lo, 'high': hi})
        call(T, 'unstable', U.stable_poly_to_unstable, {'coeffs': c, 'low': lo, 'high': lo})
        call(T, 'unstable', U.stable_poly_to_unstable, {'coeffs': [0.0, 0.0] + c, 'low': lo, 'high': rng.choice([lo, hi])})
    elif k == 'convert': call(T, 'convert', U.poly_convert, {'coeffs': c or [1.0], 'Tmin': lo, 'Tmax': hi})
    elif k == 'add': call(T, 'add', U.poly_add, {'p1': c, 'p2': series(rng, rng.randrange(0, 6))})
    elif k == 'mul': call(T, 'mul', U.poly_mul, {'p1': c or [1.0], 'p2': series(rng, rng.randrange(1, 6))})
    elif k == 'chebder':
        call(T, 'chebder', N.chebder, {'c': c})
        for m in range(5): call(T, 'chebder', N.chebder, {'c': list(c), 'm': m, 'scl': rng.choice([1.0, .5, -2.0])})
    elif k == 'chebint':
        if n == 0: c = [0.0]
        call(T, 'chebint', N.chebint, {'c': list(c)})
        for m in range(4): call(T, 'chebint', N.chebint, {'c': list(c), 'm': m, 'lbnd': rng.choice([0, -1.0, .3]), 'scl': rng.choice([1, .5, 2.0])})


def spread(rng, n, gap=.4, lo=-5, hi=5):
    while 1:
        r = [rng.choice([rng.uniform(lo, hi), float(rng.randrange(lo, hi + 1))]) for _ in range(n)]
        if all(abs(a - b) > gap for i, a in enumerate(r) for b in r[:i]): return r


def expand(rs):
    from fractions import Fraction as F
    c = [(F(1), F(0))]
    for z in rs:
        z = complex(z); re, im = F(z.real), F(z.imag)
        a = c + [(F(0), F(0))]; b = [(F(0), F(0))] + [(x*re - y*im, x*im + y*re) for x, y in c]
        c = [(p[0] - q[0], p[1] - q[1]) for p, q in zip(a, b)]
    return [float(x) for x, _ in c]


def pairs(r): return [[complex(z).real, complex(z).imag] for z in r]


def roots(job, rng, T):
    n, k = job['n'], job['k']
    s, tol = 1.0, '1e-9'
    lead = rng.choice([1.0, 1.0, -1.0, 2.5, -.3])
    if k in ('real', 'lead', 'scaled'):
        rs = spread(rng, n)
        if k == 'scaled':
            s = 10**rng.uniform(-3, 3)
            rs = [x*s for x in rs]
    elif k == 'complex':
        rs = []
        while 1:
            z = complex(rng.uniform(-4, 4), rng.uniform(.4, 4)); rest = spread(rng, n - 2)
            if n == 4 and rng.random() < .5:
                w = complex(rng.uniform(-4, 4), rng.uniform(.4, 4)); rest = [w, w.conjugate()]
            rs = [z, z.conjugate()] + rest
            if all(abs(a - b) > .4 for i, a in enumerate(rs) for b in rs[:i]): break
    elif k == 'close':
        a = rng.uniform(-3, 3); tol = '1e-3'
        rs = [a]*n if n == 2 or rng.random() < .5 else [a]*(n - 1) + [a + rng.uniform(1, 3)]
        if n == 4: rs = spread(rng, 4); tol = '1e-9'
    elif k == 'sym':
        a, b = rng.uniform(.5, 4), rng.uniform(5, 9)
        rs = [a, -a] + {2: [], 3: [0.0], 4: [b, -b + .01]}[n]
    if k == 'lead': lead = 10**rng.uniform(-3, 3)*rng.choice([1, -1])
    c = [lead*x for x in expand(rs)]
    r = pairs(rs)
    if n == 2:
        call(T, 'roots', PR.roots_quadratic, dict(zip('abc', c)), post=pairs, r=r, tol=tol if k != 'close' else '1e-6')
        if k == 'lead': call(T, 'sameroots', PR.roots_quadratic, {'a': 0.0, 'b': 2.0*lead, 'c': c[1]}, post=pairs, r=[[-c[1]/2.0/lead, 0.0]]*2, tol='1e-14')
    elif n == 3:
        call(T, 'roots', PR.roots_cubic, dict(zip('abcd', c)), post=pairs, r=r, tol=tol if k != 'scaled' else '1e-7')
        if k != 'close':
            call(T, 'roots', PR.roots_cubic_a2, dict(zip('abcd', c)), post=pairs, r=r, tol=tol)
            call(T, 'roots', PR.roots_cubic_a1, dict(zip('bcd', expand(rs)[1:])), post=pairs, r=r, tol=tol)
        if k == 'lead':
            call(T, 'sameroots', PR.roots_cubic, {'a': 0.0, 'b': 0.0, 'c': lead, 'd': c[3]}, post=pairs, r=[[-c[3]/lead, 0.0]]*3, tol='1e-14')
            for q in ([2.0, -1.0], [complex(1, 2), complex(1, -2)]):
                d = expand(q)
                hi, lo = (q if lead > 0 or not isinstance(q[0], complex) else q[::-1])
                if not isinstance(q[0], complex) and lead < 0: hi, lo = -1.0, 2.0
                call(T, 'sameroots', PR.roots_cubic, {'a': 0.0, 'b': lead, 'c': lead*d[1], 'd': lead*d[2]}, post=pairs, r=pairs([hi, hi, lo]), tol='1e-13')
    else:
        call(T, 'roots', PR.roots_quartic, dict(zip('abcde', c)), post=pairs, r=r, tol='1e-7')


def fit(job, rng, T):
    k = job['k']
    if k == 'points':
        x = spread(rng, 3); f = [rng.uniform(-5, 5) for _ in range(3)]
        call(T, 'points', U.quadratic_from_points, dict(x0=x[0], x1=x[1], x2=x[2], f0=f[0], f1=f[1], f2=f[2]), size=2e4)
    elif k == 'ders': call(T, 'ders', U.quadratic_from_f_ders, dict(x=rng.uniform(-5, 5), v=rng.uniform(-5, 5), d1=rng.uniform(-5, 5), d2=rng.uniform(-5, 5)))
    elif k in ('lntau2', 'lntau3'):
        Tc = rng.uniform(200, 900); t = Tc*rng.uniform(.3, .95)
        kw = dict(T=t, Tc=Tc, val=10**rng.uniform(-2, 3))
        kw['der'] = kw['val']/Tc*rng.uniform(-5, 5)
        if k == 'lntau3': kw['der2'] = kw['val']/Tc**2*rng.uniform(-9, 9)
        call(T, 'lntau', U.exp_poly_ln_tau_coeffs2 if k == 'lntau2' else U.exp_poly_ln_tau_coeffs3, kw, size=100.0)
    elif k == 'deflate':
        if rng.random() < .6:
            r = spread(rng, 3)
            if 0.0 in r: r = [x + .2 for x in r]
            c = expand(r); z = sorted(r[1:])
            call(T, 'deflate', U.deflate_cubic_real_roots, dict(b=c[1], c=c[2], d=c[3], x0=r[0]), hi=z[1], lo=z[0], complex=False, size=1 + 200/abs(r[0]))
        else:
            z = complex(rng.uniform(-3, 3), rng.uniform(.5, 3)); r = rng.uniform(.5, 4)*rng.choice([1, -1]); c = expand([r, z, z.conjugate()])
            call(T, 'deflate', U.deflate_cubic_real_roots, dict(b=c[1], c=c[2], d=c[3], x0=r), hi=0.0, lo=0.0, complex=True, size=1.0)
    else:
        lo = rng.uniform(-300, 300)
        call(T, 'offset', U.polynomial_offset_scale, {'xmin': lo, 'xmax': lo + rng.choice([1, -1])*rng.uniform(.1, 500)})


def pw(job, rng, T):
    lo = rng.uniform(100, 200); hi = lo + rng.uniform(50, 300)
    at = lambda k: {'low': rng.uniform(10, lo), 'min': lo, 'mid': rng.uniform(lo, hi), 'max': hi, 'high': hi + rng.uniform(1, 300)}[k]
    n = rng.randrange(1, 6)
    c = [x*10.0**(2 - 2.3*(n - 1 - i)) for i, x in enumerate(series(rng, n))]
    v = [rng.uniform(-100, 100) for _ in range(2)]; s = [rng.uniform(-1, 1) for _ in range(2)]
    ends = dict(Tmin=lo, Tmax=hi, Tmin_value=v[0], Tmax_value=v[1], Tmin_slope=s[0], Tmax_slope=s[1])
    t1, t2 = at(job['i']), at(job['j'])
    ic = U.polyint(c); oc, lc = U.polyint_over_x(c)
    call(T, 'seg', N.fit_integral_linear_extrapolation, dict(T1=t1, T2=t2, int_coeffs=ic, **ends))
    call(T, 'segx', N.fit_integral_over_T_linear_extrapolation, dict(T1=t1, T2=t2, T_int_T_coeffs=oc, poly_fit_log_coeff=lc, **ends))
    call(T, 'val', N.poly_fit_integral_value, dict(T=t2, int_coeffs=ic, **ends))
    call(T, 'valx', N.poly_fit_integral_over_T_value, dict(T=t2, T_int_T_coeffs=oc, poly_fit_log_coeff=lc, **ends))
    k = rng.randrange(1, 4)
    data = [[], [], [], [], [], [], [], [], []]
    for i in range(k):
        a = lo + (rng.uniform(-30, 30) if i else 0.0); b = hi + (rng.uniform(0, 30) if i else 0.0)
        c = [x*10.0**(-2.3*(3 - j)) for j, x in enumerate(series(rng, 4))]
        for q, z in zip(data, [a, rng.uniform(-1, 1), rng.uniform(-9, 9), b, rng.uniform(-1, 1), rng.uniform(-9, 9), c, U.polyder(c[::-1])[::-1], U.polyder(c[::-1], 2)[::-1]]): q.append(z)
    for q, fn in enumerate((N.evaluate_linear_fits, N.evaluate_linear_fits_d, N.evaluate_linear_fits_d2)):
        call(T, 'fits', fn, {'data': data, 'x': t1}, k=q)


def sign(job, rng, T):
    k, n = job['k'], job['n']
    d = None
    if k in ('positive', 'negative'):
        c = [rng.uniform(.5, 2)]
        for _ in range(n//2):
            z = complex(rng.uniform(-3, 3), rng.uniform(.5, 3)); e = [1.0, -2*z.real, abs(z)**2]
            c = N.polynomial_utils.poly_mul(c, e)
        if n % 2: d = [.5, rng.uniform(2, 9)]; c = U.poly_mul(c, [1.0, 1.0])
        if k == 'negative': c = [-x for x in c]
        call(T, 'sign', N.is_poly_positive, {'poly': c, 'domain': d}, expect=k == 'positive')
        call(T, 'sign', N.is_poly_negative, {'poly': c, 'domain': d}, expect=k == 'negative')
    else:
        r = sorted(spread(rng, n, .5))
        r = [x + .123 for x in r]
        c = expand(r)
        if k == 'crossing':   # a root inside
            j = rng.randrange(n); d = [r[j] - rng.uniform(.05, .2), r[j] + rng.uniform(.05, .2)]
            for f in (N.is_poly_positive, N.is_poly_negative): call(T, 'sign', f, {'poly': c, 'domain': d}, expect=False)
        else:
            j = rng.randrange(n + 1)
            e = [r[0] - 2.0] + r + [r[-1] + 2.0]
            w = e[j + 1] - e[j]; d = [e[j] + .2*w, e[j + 1] - .2*w]
            pos = (n - j) % 2 == 0
            call(T, 'sign', N.is_poly_positive, {'poly': c, 'domain': d}, expect=pos)
            call(T, 'sign', N.is_poly_negative, {'poly': c, 'domain': d}, expect=not pos)


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    if m == 'reached':
        c = job['c']
        for k in ('der', 'int', 'overx'): tr_fixed(k, c, T)
        x = float(rng.randrange(-3, 4))
        call(T, 'ev', E.horner_and_der4, {'coeffs': c, 'x': x}, c=[c], base='poly', ln=False, ex=False, nd=4)
        call(T, 'chebder', N.chebder, {'c': list(c)}); call(T, 'chebint', N.chebint, {'c': list(c)})
        rs = job['roots']
        if 99 not in rs and 2 <= len(rs) <= 4:
            dup = len(set(rs)) < len(rs)
            r = [[float(z), 0.0] for z in rs]
            if len(rs) == 2: call(T, 'roots', PR.roots_quadratic, dict(zip('abc', c)), post=pairs, r=r, tol='1e-13')
            elif len(rs) == 3:
                call(T, 'roots', PR.roots_cubic, dict(zip('abcd', c)), post=pairs, r=r, tol='1e-4' if dup else '1e-9')
            elif not dup and sum(rs) != 0: call(T, 'roots', PR.roots_quartic, dict(zip('abcde', c)), post=pairs, r=r, tol='1e-7')
        return
    for rep in range(4 if tier == 'quick' else 15):
        if rep: T.trace()
        if m == 'mono':
            n = job['n']
            p = [float(rng.randrange(0, 4)) for _ in range(n)]
            q = sorted(p); u = sorted(set(rng.uniform(0, 1) for _ in range(n)))
            for s in (p, q, q[::-1], u, u[::-1], [1.0]*n):
                if s: call(T, 'monotonic', N.is_monotonic, {'points': s})
                call(T, 'increasing', N.is_increasing, {'points': s})
        else: dict(ev=ev, one=one, tr=tr, roots=roots, fit=fit, pw=pw, sign=sign)[m](job, rng, T)


def tr_fixed(k, c, T):
    if k == 'der': call(T, 'der', U.polyder, {'c': list(c)})
    elif k == 'int': call(T, 'int', U.polyint, {'coeffs': c})
    else: call(T, 'overx', U.polyint_over_x, {'coeffs': c})
