"""Histories of calls, each compared with the same call made by a process which has just imported the library."""
import copy, decimal, json, locale, math, os, pickle, random, struct, sys
import fluids, fluids.numerics
import numpy as np, scipy.interpolate, scipy.integrate, scipy.optimize, scipy.special, mpmath
from lib_api import args, perturb
import vf
AGAIN = 0.0


def send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    while b: b = b[os.write(fd, b):]


def recv(fd):
    def read(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c: raise EOFError
            out += c
        return out
    return read(struct.unpack('<Q', read(8))[0])


def world():
    return [mpmath.mp.dps, mpmath.mp.prec, sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()), hash(random.getstate()), hash(np.random.get_state()[1].tobytes()), sys.getrecursionlimit(),
            os.getcwd(), hash(tuple(sorted(os.environ.items()))), locale.setlocale(locale.LC_ALL), decimal.getcontext().prec, sys.stdout is STDOUT]


STDOUT = sys.stdout


def find(name):
    o = fluids
    for n in name.split('.'): o = getattr(o, n)
    return o


def one(name, kw): return vf.enc(vf.Recorder._do(find(name), (), kw, 20))


def use_adapters(order, todo):
    """In a fresh process: import the adapters in order, use each, and call plain functions after each."""
    import importlib
    out = []
    for a in order:
        before = world()
        m = importlib.import_module('fluids.' + a)
        kept = [before, world()]
        rng = random.Random(repr(order) + a)
        for name, kw in rng.sample(todo, 12):
            if a != 'units':
                vf.Recorder._do(getattr(m, name, int), (), {k: (np.array(v) if isinstance(v, list) else v) for k, v in kw.items()}, 60 if a == 'numba' else 5)
        for name, kw in todo: out.append((a, name, kw, one(name, kw), kept))
    return out


class Fresh:
    """A process which only imported the library, and forks one more for every call asked of it."""
    def __init__(self):
        r0, w0 = os.pipe(); r1, w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w0); os.close(r1)
            try:
                while True:
                    q = pickle.loads(recv(r0))
                    r, w = os.pipe()
                    p = os.fork()
                    if p == 0:
                        try: ans = use_adapters(*q[1:]) if q[0] == 'adapters' else [one(n, k) for n, k in q[1]] if q[0] == 'calls' else None
                        except BaseException as e: ans = ('!!', repr(e))
                        send(w, pickle.dumps(ans))
                        os._exit(0)
                    os.close(w)
                    try: b = recv(r)
                    except EOFError: b = pickle.dumps(('!!', 'died'))
                    os.close(r); os.waitpid(p, 0)
                    send(w1, b)
            finally: os._exit(0)
        os.close(r0); os.close(w1)
        self.w, self.r = w0, r1
    def ask(self, *q):
        send(self.w, pickle.dumps(q))
        a = pickle.loads(recv(self.r))
        if isinstance(a, tuple) and a and a[0] == '!!': raise RuntimeError(a)
        return a
    def call(self, name, kw): return self.ask('calls', [(name, kw)])[0]


FRESH = None


def act(T, name, kw):
    """One call of the history, with its arguments and surroundings before and after."""
    fresh = FRESH.call(name, kw)
    mine = copy.deepcopy(kw)
    before, w0 = vf.enc(mine), world()
    out = vf.Recorder._do(find(name), (), mine, 20)
    w1 = world()
    T.event('call', f=name, a=kw, out=out, fresh=fresh, before=before, after=vf.enc(mine), world0=repr(w0), world1=repr(w1), site=name)
    T.cell = None
    return out


def spoil(o):
    if isinstance(o, list):
        for i, v in enumerate(o):
            spoil(v)
            if isinstance(v, (int, float)): o[i] = -77.0
            elif isinstance(v, str): o[i] = 'spoilt'
        o.append('spoilt')
    elif isinstance(o, dict):
        for k in list(o): spoil(o[k]); o[k] = 'spoilt'
    elif isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in 'fi': o[...] = -77
    elif isinstance(o, tuple):
        for v in o: spoil(v)


def calls(job, rng, T):
    f = job['f']
    xs = job['xs']
    x = rng.choice(xs)
    base = args(x)
    outs = []
    i = 0
    for m in job['hist']:
        if m == 'base': outs.append(act(T, f, base))
        elif m == 'other': outs.append(act(T, f, args(rng.choice(xs))))
        elif m == 'vary':
            names = [n for n, v in base.items() if isinstance(v, (int, float, list)) and not isinstance(v, bool)]
            for n in rng.sample(names, min(len(names), 12)):
                kw = dict(base)
                v = kw[n]
                kw[n] = [t*1.02 for t in v] if isinstance(v, list) else v + rng.choice([1, 1, -1]) if isinstance(v, int) else v*math.exp(rng.choice([-1, 1])*rng.choice([1e-9, 1e-3, .05, .3]))
                outs.append(act(T, f, kw))
        elif m == 'fail':
            kw = dict(base)
            for n in rng.sample(sorted(kw), min(len(kw), 2)): kw[n] = rng.choice([None, 'No such', float('nan'), -1.0, 0])
            w0 = world()
            vf.Recorder._do(find(f), (), kw, 5)
            T.event('fail', f=f, world0=repr(w0), world1=repr(world()), site=f)
            T.cell = None
        else:
            for o in outs: spoil(o)
            T.event('spoil')
            T.cell = None


METHODS = [('friction_factor_methods', dict(Re=1e5, eD=1e-4)), ('friction_factor_methods', dict(Re=1e5, eD=1e-4, check_ranges=False)), ('friction_factor_methods', dict(Re=100.0)),
           ('friction_factor_curved_methods', dict(Re=1e5, Di=.02, Dc=.5)), ('friction_factor_curved_methods', dict(Re=1e5, Di=.02, Dc=.5, check_ranges=False)), ('friction_factor_curved_methods', dict(Re=100.0, Di=.02, Dc=.5, check_ranges=True)),
           ('drag_sphere_methods', dict(Re=200.0)), ('drag_sphere_methods', dict(Re=200.0, check_ranges=False)), ('dP_packed_bed_methods', dict(dp=8E-4, voidage=0.4, vs=1E-3, rho=1E3, mu=1E-3, L=1.0)),
           ('two_phase_dP_methods', dict(m=0.6, x=0.1, rhol=915., rhog=2.67, mul=180E-6, mug=14E-6, sigma=0.0487, D=0.05, L=1.0)), ('two_phase_dP_methods', dict(m=0.6, x=0.1, rhol=915., D=0.05)),
           ('liquid_gas_voidage_methods', dict(m=0.6, x=0.1, rhol=915., rhog=2.67, mul=180E-6, mug=14E-6, sigma=0.0487, D=0.05)), ('liquid_gas_voidage_methods', dict(x=.1, rhol=915., rhog=2.6)),
           ('gas_liquid_viscosity_methods', dict(rhol=1000., rhog=2.)), ('gas_liquid_viscosity_methods', {})]


def methods(job, rng, T):
    for _ in range(2):
        for n, kw in rng.sample(METHODS, len(METHODS)):
            o = act(T, n, kw)
            spoil(o)
            T.event('spoil')


def colebrook(job, rng, T):
    for tol in (None, 0, 1e-9, 0, -1, None):
        act(T, 'Colebrook', dict(Re=10**rng.uniform(3.6, 8), eD=10**rng.uniform(-6, -1.5), tol=tol))


def tables(job, rng, T):
    """Lists a caller may be given and change: the same question asked again."""
    D = dict
    qs = [('nearest_pipe', D(Di=.021)), ('nearest_pipe', D(NPS=2.0, schedule='5S')), ('nearest_pipe', D(Do=.273, schedule='5S')), ('nearest_pipe', D(NPS=.75)), ('gauge_from_t', D(t=.5, SI=False, schedule='BWG')), ('t_from_gauge', D(gauge=.2, SI=False, schedule='BWG')),
          ('numerics.linspace', D(start=0., stop=1., num=5)), ('numerics.zeros', D(shape=(2, 3))), ('numerics.chebval', D(x=.3, c=[1., 2., 3.])), ('numerics.polyint', D(coeffs=[1., 2., 3.])), ('numerics.polyder', D(c=[1., 2., 3.])),
          ('numerics.transpose', D(x=[[1., 2.], [3., 4.]])), ('numerics.inv', D(matrix=[[2., 1.], [1., 3.]])), ('numerics.deflate_cubic_real_roots', D(b=-6., c=11., d=-6., x0=1.)), ('numerics.eye', D(N=3)), ('sieve_names', None),
          ('psd_spacing', D(d_min=1e-4, d_max=1e-3, pts=6)), ('psd_spacing', D(d_min=1e-4, d_max=1e-3, method='R10')), ('psd_spacing', D(d_min=1e-4, d_max=1e-3, method='ISO 3310-1')), ('psd_spacing', D(d_min=1e-4, d_max=1e-3, method='ASTM E11'))]
    qs = [q for q in qs if q[1] is not None]
    for _ in range(3):
        for n, kw in rng.sample(qs, len(qs)):
            if n == 'psd_spacing': n = 'particle_size_distribution.psd_spacing'
            o = act(T, n, kw)
            spoil(o)
            T.event('spoil')


def solvers(job, rng, T):
    """Functions which solve, called again and again around the same places."""
    D = dict
    qs = [('friction_factor', D(Re=1e5, eD=1e-3)), ('Colebrook', D(Re=1e5, eD=1e-3)), ('isothermal_gas', D(rho=11.3, fd=.00185, P1=1E6, P2=9E5, L=1000., D=.5)), ('differential_pressure_meter_solver', D(D=.07366, D2=.05, P1=200000.0, P2=183000.0, rho=999.1, mu=.0011, k=1.33, meter_type='ISO 5167 orifice', taps='D')),
          ('v_terminal', D(D=70E-6, rhop=2600., rho=1000., mu=1E-3)), ('Stichlmair_flood', D(Vl=5E-3, rhog=5., rhol=1200., mug=5E-5, voidage=.68, specific_area=260., C1=32., C2=7., C3=1.)), ('size_control_valve_l', D(rho=965.4, Psat=70.1E3, Pc=22120E3, mu=3.1472E-4, P1=680E3, P2=220E3, Q=.1, D1=.15, D2=.15, d=.15, FL=.9, Fd=.46)),
          ('entrance_beveled_orifice', D(Di=.1, do=.07, l=.003, angle=45.)), ('bend_miter', D(Di=.6, angle=45., Re=1e6, roughness=1e-5, L_unimpeded=20.)), ('bend_rounded', D(Di=4.02, rc=20., angle=30., Re=1E5)), ('contraction_conical', D(Di1=.1, Di2=.04, l=.04, Re=1E6, method='Miller')), ('diffuser_conical', D(Di1=.1, Di2=.2, l=.5, angle=90., Re=1e6, fd=.02, method='Miller')),
          ('Panhandle_A', D(D=.34, P1=90E5, P2=20E5, L=160E3, SG=.693, Tavg=277.15)), ('motor_efficiency_underloaded', D(P=.1*745.7, load=.9)), ('specific_diameter', D(Q=.1, H=10., D=.1))]
    for _ in range(3):
        for n, kw in rng.sample(qs, len(qs)):
            if rng.random() < .6:
                k = rng.choice([k for k in kw if isinstance(kw[k], float)])
                kw = dict(kw); kw[k] *= math.exp(rng.choice([1e-12, 1e-6, .02, .1])*rng.choice([-1, 1]))
            act(T, n, kw)


def adapter(job, rng, T):
    todo = []
    for x in rng.sample(job['xs'], 70):
        kw = args(x)
        todo.append((x['f'], kw))
    fresh = [FRESH.call(*q) for q in todo]
    res = FRESH.ask('adapters', job['order'], todo)
    for k, (a, name, kw, out, kept) in enumerate(res):
        T.event('call', f=name, a=kw, out=out, fresh=fresh[k % len(todo)], before=0, after=0, world0=repr(kept[0]) if k % len(todo) == 0 else '', world1=repr(kept[1]) if k % len(todo) == 0 else '', site=a)
        T.cell = None


def run(job, rng, T, tier):
    global FRESH
    if FRESH is None: FRESH = Fresh()
    T.trace(job['cell'])
    {'adapters': adapter}.get(job['m'], globals().get(job['m']))(job, rng, T)
