#!/usr/bin/env python3
"""holes.py [-w]: the statements of the library no driver executes (one plan each; the adapters' drivers only with -w)."""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check as C
from concurrent.futures import ThreadPoolExecutor

cfgs = json.load(open(HERE + '/checks.json'))
W = tempfile.mkdtemp(prefix='holes_')
hit = {}
try:
    build = C.build_java()
    def run(pid):
        cfg = cfgs[pid]; name = cfg['name']
        d = W + '/' + pid; os.makedirs(d)
        plan = d + '/plan.jsonl'
        ok, _, out = C.tlc(build, d, HERE + '/spec/%sModel.tla' % name, HERE + '/spec/%sModel.cfg' % name, {'vf.PLAN': plan}, name='m')
        if not ok: return pid, None
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_REPO='/repo', VF_COV=d + '/cov')
        p = subprocess.run([C.PY, HERE + '/lib/vf.py', cfg.get('driver', name.lower()), plan, d + '/t.jsonl', '1', 'quick', '1'], capture_output=True, text=True, env=env, cwd=d)
        r = set()
        for q in glob.glob(d + '/cov.*'):
            for f, l in json.load(open(q)): r.add((os.path.relpath(f, '/repo'), l))
        shutil.rmtree(d)
        return pid, r
    ids = [p for p in cfgs if '-w' in sys.argv or p not in ('W01', 'W02', 'W03', 'H01')]
    with ThreadPoolExecutor(4) as ex:
        for pid, r in ex.map(run, ids):
            if r is None: print('no plan', pid); continue
            for f, l in r: hit.setdefault(f, set()).add(l)
finally:
    shutil.rmtree(W, ignore_errors=True)
for f in sorted(glob.glob('/repo/fluids/**/*.py', recursive=True)):
    rel = os.path.relpath(f, '/repo')
    src = open(f).read(); L = src.split('\n')
    h = hit.get(rel, set())
    for node in ast.walk(ast.parse(src)):
        if not isinstance(node, ast.FunctionDef): continue
        ls = sorted({x.lineno for t in node.body for x in ast.walk(t) if isinstance(x, ast.stmt) and not isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))})
        miss = [l for l in ls if l not in h]
        if not ls or not miss: continue
        if len(miss) == len(ls): print('%s:%d %s NEVER (%d)' % (rel, node.lineno, node.name, len(ls)))
        else:
            for l in miss: print('%s:%d %s: %s' % (rel, l, node.name, L[l - 1].strip()[:120]))
