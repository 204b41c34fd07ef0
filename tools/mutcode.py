#!/usr/bin/env python3
"""mutcode.py ID [n] [seed] [-f func,func] [-h]: how much of what the driver of ID executes does its check pin down?

Small changes are made at random to the lines of the implementation which the driver executes (in copies);
the traces recorded from each changed implementation which differ from the unchanged one's are validated
together.  Prints the changes whose traces were all accepted (or did not differ), and with -h the lines of
the executed functions which were never executed."""
import ast, glob, importlib.util, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check as C


def prop(pid):
    for p in glob.glob(os.path.join(HERE, 'tools', 'props', '*.py')):
        sp = importlib.util.spec_from_file_location('p', p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for q in m.P:
            if q['id'] == pid: return q


def mutants(src, lines, rng, n, funcs):
    tree = ast.parse(src)
    L = src.split('\n')
    off = [0]
    for x in L: off.append(off[-1] + len((x + '\n').encode()))
    b = src.encode()
    out = []
    used = set()
    fdefs = []
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)):
            if any(l in lines for l in range(node.body[0].lineno, node.end_lineno + 1)):
                if funcs and node.name not in funcs: continue
                fdefs.append(node)
                for x in ast.walk(node):
                    if isinstance(x, ast.Name): used.add(x.id)
    def span(x): return off[x.lineno - 1] + x.col_offset, off[x.end_lineno - 1] + x.end_col_offset
    def add(x, new, kind):
        s, e = span(x)
        out.append((s, e, b[s:e].decode(), new, x.lineno, kind))
    def num(x, kind='const'):
        v = x.value
        if isinstance(v, bool) or not isinstance(v, (int, float)): return
        add(x, repr(v + 1 if isinstance(v, int) else (v*1.01 if v else .01)), kind)
    for f in fdefs:
        names = sorted({a.arg for a in f.args.args} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        for top in f.body:
          for x in ast.walk(top):
            if not hasattr(x, 'lineno') or x.lineno not in lines: continue
            U = ast.unparse
            if isinstance(x, ast.Constant): num(x)
            elif isinstance(x, ast.BinOp):
                sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}.get(type(x.op))
                if sw: add(x, '((%s)%s(%s))' % (U(x.left), sw, U(x.right)), 'op')
            elif isinstance(x, ast.Compare) and len(x.ops) == 1:
                sw = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<', ast.Eq: '!=', ast.NotEq: '=='}.get(type(x.ops[0]))
                if sw: add(x, '((%s) %s (%s))' % (U(x.left), sw, U(x.comparators[0])), 'cmp')
                sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}.get(type(x.ops[0]))
                if sw: add(x, '((%s) %s (%s))' % (U(x.left), sw, U(x.comparators[0])), 'edge')
            elif isinstance(x, ast.BoolOp):
                sw = ' or ' if isinstance(x.op, ast.And) else ' and '
                add(x, '(' + sw.join('(%s)' % U(v) for v in x.values) + ')', 'bool')
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('min', 'max', 'abs'):
                add(x, '(%s)' % U(x.args[0]) if x.func.id == 'abs' else {'min': 'max', 'max': 'min'}[x.func.id] + U(x)[3:], 'call')
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names:
                o = [y for y in names if y != x.id]
                if o: add(x, rng.choice(o), 'name')
            elif isinstance(x, (ast.AugAssign,)) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)): add(x, 'pass', 'del')
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and False: pass
    tabs = []
    if not funcs:
      for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in used:
            for x in ast.walk(node.value):
                if isinstance(x, ast.Constant):
                    k = len(out); num(x, 'table')
                    if len(out) > k: tabs.append(out.pop())
    rng.shuffle(out); rng.shuffle(tabs)
    # even out the kinds
    by = {}
    for m in out: by.setdefault(m[5], []).append(m)
    picks = []
    while len(picks) < n and any(by.values()):
        for k in list(by):
            if by[k]: picks.append(by[k].pop())
    picks = picks[:n] + tabs[:n//8]
    return b, picks, fdefs


def strip(t):
    return [{k: v for k, v in e.items() if k != 'again'} for e in json.loads(t)]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    n = int(args[1]) if len(args) > 1 else 60
    seed = int(args[2]) if len(args) > 2 else 1
    funcs = None
    if '-f' in sys.argv: funcs = set(sys.argv[sys.argv.index('-f') + 1].split(','))
    holes = '-h' in sys.argv
    cfg = json.load(open(os.path.join(HERE, 'checks.json')))[pid]
    name, files = cfg['name'], prop(pid)['files']
    W = tempfile.mkdtemp(prefix='mutc_')
    try:
        build = C.build_java()
        plan = W + '/plan.jsonl'
        ok, _, out = C.tlc(build, W, HERE + '/spec/%sModel.tla' % name, HERE + '/spec/%sModel.cfg' % name, {'vf.PLAN': plan}, name='m')
        assert ok, out[-2000:]
        def drive(repo, trace, cov=None, np=1):
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_REPO=repo)
            if cov: env['VF_COV'] = cov
            try:
                p = subprocess.run([C.PY, HERE + '/lib/vf.py', cfg.get('driver', name.lower()), plan, trace, '1', 'quick', str(np)], capture_output=True, text=True, env=env, cwd=W, timeout=120)
            except subprocess.TimeoutExpired:
                return None
            return p.returncode == 0
        assert drive('/repo', W + '/base.jsonl', W + '/cov')
        base = open(W + '/base.jsonl').read().split('\n')[:-1]
        hit = {}
        for p in glob.glob(W + '/cov.*'):
            for f, l in json.load(open(p)): hit.setdefault(os.path.relpath(f, '/repo'), set()).add(l)
        rng = random.Random(seed)
        jobs = []
        tot = {f: len(hit.get(f, ())) for f in files}
        for f in files:
            if not tot[f]: continue
            src = open('/repo/' + f).read()
            b, ms, fd = mutants(src, hit[f], rng, max(3, n*tot[f]//sum(tot.values())), funcs)
            jobs += [(f, b, m) for m in ms]
            if holes:
                for fn in fd:
                    ls = sorted({x.lineno for t in fn.body for x in ast.walk(t) if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))} - hit[f])
                    for l in ls: print('HOLE %s:%d %s: %s' % (f, l, fn.name, src.split('\n')[l - 1].strip()[:110]))
        def one(k):
            f, b, (s, e, old, new, line, kind) = jobs[k]
            R = '%s/r%d' % (W, k)
            shutil.copytree('/repo/fluids', R + '/fluids', symlinks=True, copy_function=lambda a, c: os.symlink(a, c))
            os.unlink(R + '/' + f)
            code = b[:s] + new.encode() + b[e:]
            try: compile(code, f, 'exec')
            except SyntaxError: return 'syntax', []
            open(R + '/' + f, 'wb').write(code)
            t = '%s/t%d.jsonl' % (W, k)
            r = drive(R, t)
            shutil.rmtree(R)
            if r is None: return 'timeout', []
            if not r: return 'driverfail', []
            tr = open(t).read().split('\n')[:-1]
            os.unlink(t)
            if len(tr) != len(base): return 'count', []
            d = [x for x, y in zip(tr, base) if x != y and (strip(x) != strip(y))]
            nd = len(d)
            random.Random(k).shuffle(d)
            seen = {}
            def rank(x):
                o = tuple(sorted({y['op'] for y in json.loads(x)}))
                seen[o] = seen.get(o, 0) + 1
                return seen[o]
            d.sort(key=rank)
            return 'diff' if d else 'same', [nd] + d[:60]
        with ThreadPoolExecutor(7) as ex: res = list(ex.map(one, range(len(jobs))))
        lines = [(k, t) for k, (st, d) in enumerate(res) if st == 'diff' for t in d[1:]]
        dead = set()
        while True:
            cur = [(k, t) for k, t in lines if k not in dead]
            if not cur: break
            open(W + '/v.jsonl', 'w').write(''.join(t + '\n' for _, t in cur))
            open(W + '/t.cfg', 'w').write('SPECIFICATION TraceSpec\nCONSTANT InitSt <- MyInit\nCONSTANT Step <- MyStep\nCHECK_DEADLOCK FALSE\n')
            rep = W + '/rep.txt'
            if os.path.exists(rep): os.remove(rep)
            ok, _, out = C.tlc(build, W, HERE + '/spec/%sTrace.tla' % name, W + '/t.cfg', {'vf.TRACE': W + '/v.jsonl', 'vf.REPORT': rep}, workers=8, mem='12g', name='t')
            known = C.load_known()
            if os.path.exists(rep):
                for l in open(rep):
                    a, bb, s = l.rstrip('\n').split('\t')
                    ev = json.loads(cur[int(a) - 1][1])[int(bb) - 1]
                    site = str(ev.get('site', ev['op']))
                    cl = re.findall(r'"([^"]*)"', s)
                    if any(not any(q[0] == pid and C.fnmatch.fnmatchcase(site, q[1]) and q[2] == c for q in known) for c in cl): dead.add(cur[int(a) - 1][0])
            if ok: break
            at = re.findall(r'^/\\ vt = (\d+)', out, re.M)
            if not at: print(out[-1500:]); break
            dead.add(cur[int(at[-1]) - 1][0])
        cnt = {}
        for k, (f, b, m) in enumerate(jobs):
            st, d = res[k]
            o = 'killed' if k in dead else ('SURVIVED' if st == 'diff' else st)
            cnt[o] = cnt.get(o, 0) + 1
            if o in ('SURVIVED', 'same'):
                src = b.decode().split('\n')[m[4] - 1].strip()
                print('%s %s:%d [%s] %s -> %s%s | %s' % (o, f, m[4], m[5], m[2][:60], m[3][:60], ' (%d traces differ)' % d[0] if d else '', src[:110]))
        print(pid, cnt)
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
