#!/usr/bin/env python3
"""Development tool, run once: copies the documented signature (arguments, units, example values) of the
public functions into spec/ApiData.tla.  The specification owns the copy; checks never run this."""
import ast, doctest, inspect, json, glob, os, types, warnings
warnings.simplefilter('ignore')
import sys
sys.path.insert(0, '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import fluids, fluids.units as U

P = doctest.DocTestParser()
ns = {'pi': 3.141592653589793}
def lit(v, deep=0):
    if v is None or isinstance(v, (bool, str, int, float)): return True
    return isinstance(v, (list, tuple)) and deep == 0 and len(v) > 0 and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v)
ex = {}
for n in dir(fluids):
    o = getattr(fluids, n)
    if not isinstance(o, types.FunctionType) or n.startswith('_') or n == 'all_submodules': continue
    ps = list(inspect.signature(o).parameters)
    for e in P.get_examples(o.__doc__ or ''):
        try: t = ast.parse(e.source.strip())
        except SyntaxError: continue
        for x in ast.walk(t):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and getattr(fluids, x.func.id, None) is o:
                try:
                    g = vars(fluids) | ns
                    kw = dict(zip(ps, [eval(compile(ast.Expression(a), '', 'eval'), g) for a in x.args]))
                    kw.update({k.arg: eval(compile(ast.Expression(k.value), '', 'eval'), g) for k in x.keywords})
                    if not all(lit(v) for v in kw.values()): continue
                    r = o(**kw)
                except Exception: continue
                L = ex.setdefault(n, [])
                if not any(repr(kw) == repr(a) for a, _ in L): L.append((kw, r))
manual = {'API520_A_l': [], 'motor_efficiency_underloaded': [dict(P=1000.0, load=0.9), dict(P=12000.0, load=0.3)], 'VFD_efficiency': [dict(P=7457.0, load=0.5)],
          'Crane_loss_coefficient': [], 'K_Sounders_Brown_theoretical': [dict(D=150e-6, Cd=0.5)], 'v_Sounders_Brown': [dict(K=0.08, rhol=985.4, rhog=1.3)],
          'K_separator_demister_York': [dict(P=975.0*6894.76, horizontal=True)], 'Cv_char_linear': [dict(opening=0.5)], 'Cv_char_equal_percentage': [dict(opening=0.5)], 'Cv_char_quick_opening': [dict(opening=0.5)],
          'SA_partial_vertical_torispherical_head': [dict(D=72.0, f=1.0, k=0.06, h=2.0)], 'API521_noise_graph': [dict(P_ratio=2.0)], 'CSA_motor_efficiency': [dict(P=37285.0, closed=True, poles=4, high_efficiency=True)]}
for n, L in manual.items():
    for kw in L:
        try: ex.setdefault(n, []).append((kw, getattr(fluids, n)(**kw)))
        except Exception as e: print('manual', n, e)
# every named method of the functions which take one
import sys as _s
more = {}
for n in sorted(ex):
    o = getattr(fluids, n)
    for m in ('Method', 'method', 'Method_friction', 'material', 'meter_type', 'taps', 'tap_position', 'angles'):
        sig = inspect.signature(o).parameters
        if m not in sig: continue
        mod = vars(_s.modules[o.__module__])
        words = set()
        for v in mod.values():
            if isinstance(v, (list, tuple, set, frozenset, dict)):
                words |= {w for w in v if isinstance(w, str)}
            if isinstance(v, str) and len(v) < 60: words.add(v)
        for kw, _ in ex[n][:1]:
            for w in sorted(words):
                k2 = dict(kw); k2[m] = w
                if repr(k2) == repr(kw): continue
                try: r = o(**k2)
                except Exception: continue
                if r is None or isinstance(r, complex): continue
                more.setdefault(n, []).append((k2, r))
for n, L in more.items():
    print(n, len(L))
    # words which are not recognised may be ignored by the function: keep those which change the answer
    seen = {repr(r) for _, r in ex[n][:3]}
    for kw, r in L:
        if repr(r) not in seen: ex[n][3:3] = [(kw, r)]; seen.add(repr(r))
numba = {}
for p in glob.glob('/tmp/w/pn_*.json'): numba.update(json.load(open(p)))
def q(s): return '"%s"' % s
def arg(n, v, u):
    k, w = ('b', 'TRUE' if v else 'FALSE') if isinstance(v, bool) else ('z', '"None"') if v is None else ('s', q(v)) if isinstance(v, str) else ('i', q(v)) if isinstance(v, int) else ('n', q(repr(v))) if isinstance(v, float) else ('l', '<<%s>>' % ', '.join(q(repr(x)) for x in v))
    return '[n |-> %s, k |-> "%s", v |-> %s, u |-> %s]' % (q(n), k, w, q(u))
rows, nodoc = [], []
for n in sorted(ex):
    o = getattr(fluids, n)
    d = U.parse_numpydoc_variables_units(o)
    un = dict(zip(d['Parameters']['vars'] + d['Other Parameters']['vars'], d['Parameters']['units'] + d['Other Parameters']['units']))
    rv, ru = list(d['Returns']['vars']), list(d['Returns']['units'])
    if rv and rv[0] == 'results': rv.pop(0); ru.pop(0)
    for i, (kw, r) in enumerate(ex[n]):
        kind = 'list' if isinstance(r, list) else 'tuple' if isinstance(r, tuple) else 'dict' if isinstance(r, dict) else 'str' if isinstance(r, str) else 'bool' if isinstance(r, bool) else 'number'
        nb = numba.get(n, {}).get(str(i), ['?'])[0] == 'ok'
        rows.append('  [f |-> %s, i |-> "%d", args |-> <<%s>>, ret |-> %s, units |-> <<%s>>, jit |-> %s]' % (q(n), i, ', '.join(arg(a, v, un.get(a, 'dimensionless')) for a, v in kw.items()), q(kind), ', '.join(q(x) for x in ru), 'TRUE' if nb else 'FALSE'))
json.dump({n: [kw for kw, _ in L] for n, L in ex.items()}, open('/tmp/w/ex.json', 'w'))
with open(HERE + '/spec/ApiData.tla', 'w') as f:
    f.write('---- MODULE ApiData ----\n\\* The public functions: arguments with the values of their documented examples and documented units, kind and units of the result,\n\\* and whether the function can be compiled.\nApi == <<\n' + ',\n'.join(rows) + ' >>\n====\n')
print(len(ex), len(rows))
