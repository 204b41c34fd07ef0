#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property.

1. TLC explores the property's model module (spec/<Name>Model.tla) completely,
   checking its invariants; the model emits the test plan.
2. drivers/<name>.py executes the plan on the real code and records traces.
3. TLC validates every trace against the trace module (spec/<Name>Trace.tla).
Exit 0: held; 1: VIOLATION line; 2: the machinery failed.
"""
import copy, fnmatch, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
NPROC = 8


class Machinery(Exception):
    pass


def sources():
    d = os.path.join(HERE, 'java', 'vf')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.java'))


def build_java():
    h = hashlib.sha256()
    for f in sources():
        h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]
    out = os.path.join(HERE, '.build', key)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=os.path.join(HERE, '.build'))
    p = subprocess.run(['javac', '-d', tmp, '-cp', JAR] + sources(), capture_output=True, text=True)
    if p.returncode:
        raise Machinery('javac: ' + p.stderr[-2000:])
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        return tmp if not os.path.exists(os.path.join(out, 'ok')) else out
    return out


def tlc(build, work, tla, cfg, props, workers=6, timeout=3000, mem='6g', name=''):
    meta = os.path.join(work, 'meta_' + name)
    cmd = ['java', '-Djava.io.tmpdir=' + work, '-XX:+UseParallelGC', '-Dtlc2.tool.queue.DiskStateQueue.BufSize=2000000', '-Xmx' + mem, '-Xss16m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.Overrides',
           '-DTLA-Library=' + os.path.join(HERE, 'spec')]
    cmd += ['-D%s=%s' % kv for kv in props.items()]
    cmd += ['-cp', ':'.join([build, JAR, CM]), 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
            '-workers', str(workers), '-config', cfg, tla]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on ' + tla)
    out = '\n'.join(x for x in p.stdout.splitlines() if not x.startswith(('Parsing file', 'Linting of', 'Semantic processing', 'TLC2 Version', 'Running breadth'))) + p.stderr[-500:]
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    ok = 'Model checking completed. No error has been found.' in out
    return ok, (int(m.group(1)), int(m.group(2))) if m else (0, 0), out


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) site=(\S+) clause=(\S+) (.*)', line)
            if m:
                known.append(m.groups())
    return known


def mutate(v, rng):
    """A corrupted copy of a recorded result."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1])
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return 1.25
        return v * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, -1)) if v else 1e-3
    if isinstance(v, str):
        return 1.2345 if v.startswith('!') else v + '~'
    if v is None:
        return 0.12345
    if isinstance(v, list):
        if not v:
            return [0.5]
        if rng.random() < 0.1:
            return v[:-1]
        k = rng.randrange(len(v)); w = list(v); w[k] = mutate(v[k], rng); return w
    if isinstance(v, dict):
        if not v:
            return {'x': 1}
        k = rng.choice(sorted(v)); w = dict(v); w[k] = mutate(v[k], rng); return w
    return v


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    keep = os.environ.get('VF_KEEP')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(HERE, 'checks.json')))[pid]
    name = cfg['name']
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return run(pid, tier, seed, cfg, name, work, t0)
    except Machinery as ex:
        print('MACHINERY FAILURE property=%s: %s' % (pid, str(ex)[:3500]))
        return 2
    finally:
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, cfg, name, work, t0):
    build = build_java()
    spec = os.path.join(HERE, 'spec')
    plan = os.path.join(work, 'plan.jsonl')
    states = trans = 0
    t1 = time.time()
    if os.path.exists(os.path.join(spec, name + 'Model.tla')):
        c = open(os.path.join(spec, name + 'Model.cfg')).read()
        if tier == 'thorough':
            c = c.replace('Tier = "quick"', 'Tier = "thorough"')
        mc = os.path.join(work, 'model.cfg')
        open(mc, 'w').write(c)
        ok, (g, d), out = tlc(build, work, os.path.join(spec, name + 'Model.tla'), mc, {'vf.PLAN': plan}, name='m')
        if not ok:
            raise Machinery('model check failed:\n' + out[-3500:])
        states, trans = d, g
    t2 = time.time()
    trace = os.path.join(work, 'trace.jsonl')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
    p = subprocess.run([PY, os.path.join(HERE, 'lib', 'vf.py'), cfg.get('driver', name.lower()), plan, trace, str(seed), tier, str(NPROC)],
                       capture_output=True, text=True, env=env, cwd=work)
    if p.returncode:
        raise Machinery('driver failed (%d):\n%s%s' % (p.returncode, p.stdout[-1500:], p.stderr[-3000:]))
    t3 = time.time()
    with open(trace) as f:
        traces = [json.loads(x) for x in f]
    n_real = len(traces)
    if not n_real:
        raise Machinery('no traces')
    # Corrupted copies, to measure that the binding rejects wrong results.
    rng = random.Random('mut:%d' % seed)
    cand = [k for k, t in enumerate(traces) if any('out' in e for e in t)]
    mut = []
    for _ in range(min(cfg.get('mutants', 60) * (4 if tier == 'thorough' else 1), len(cand))):
        k = rng.choice(cand)
        t = copy.deepcopy(traces[k])
        j = rng.choice([x for x, e in enumerate(t) if 'out' in e])
        t[j]['out'] = mutate(t[j]['out'], rng)
        t[j].pop('again', None)
        mut.append((k, j, t))
    if mut:
        with open(trace, 'a') as f:
            for _, _, t in mut:
                f.write(json.dumps(t) + '\n')
    report = os.path.join(work, 'report.txt')
    tc = os.path.join(work, 'trace.cfg')
    open(tc, 'w').write('SPECIFICATION TraceSpec\nCONSTANT InitSt <- MyInit\nCONSTANT Step <- MyStep\nCHECK_DEADLOCK FALSE\n')
    n_ev = sum(len(t) for t in traces)
    illtyped = []
    for attempt in range(6):
        if os.path.exists(report):
            os.remove(report)
        ok, (g, d), out = tlc(build, work, os.path.join(spec, name + 'Trace.tla'), tc, {'vf.TRACE': trace, 'vf.REPORT': report}, workers=8, mem='12g', name='t')
        want = n_ev + n_real + sum(len(t) + 1 for _, _, t in mut)
        if ok and d == want:
            break
        # An evaluation error: a recorded result has a shape for which the specification has no meaning.
        at = re.findall(r'^/\\ vt = (\d+)', out, re.M)
        ev = re.findall(r'^/\\ vi = (\d+)', out, re.M)
        if ok or attempt == 5 or not at or not ev or 'overflow' in out.lower() or 'memory' in out.lower():
            raise Machinery('trace validation incomplete (%d of %d states):\n%s' % (d, want, out[-3500:]))
        a, b = int(at[-1]) - 1, int(ev[-1])
        if a < n_real:
            illtyped.append((a, b, ('IllTyped',)))
            print('evaluation error at trace %d event %d: %s' % (a, b, ' '.join(out[max(0, out.find('exception was')):][:400].split())))
            break
        mut.pop(a - n_real)
        if attempt == 4:
            mut.clear()
        with open(trace, 'w') as f:
            for t in traces + [t for _, _, t in mut]:
                f.write(json.dumps(t) + '\n')
    t4 = time.time()
    viol, muthit, mutbase = illtyped, set(), {}
    if os.path.exists(report):
        for line in open(report):
            a, b, s = line.rstrip('\n').split('\t')
            a, b = int(a) - 1, int(b) - 1
            cl = tuple(sorted(re.findall(r'"([^"]*)"', s)))
            if a < n_real:
                viol.append((a, b, cl))
                mutbase.setdefault(a, set()).add((b, cl))
            else:
                muthit.add((a - n_real, b, cl))
    killed = {m for m, b, cl in muthit if (b, cl) not in mutbase.get(mut[m][0], ())}
    # Every cell of the plan must have been executed.
    cells = set()
    if os.path.exists(plan):
        cells = {json.dumps(json.loads(x).get('cell'), sort_keys=True) for x in open(plan) if x.strip()}
        cells.discard('null')
    seen = {json.dumps(e['cell'], sort_keys=True) for t in traces for e in t[:1] if 'cell' in e}
    missing = cells - seen
    if missing:
        raise Machinery('planned cells never executed: %s' % sorted(missing)[:5])
    known = load_known()
    new, old = [], {}
    for a, b, cl in sorted(viol):
        e = traces[a][b]
        site = str(e.get('site', e['op']))
        for c in cl:
            for k in known:
                if k[0] == pid and fnmatch.fnmatchcase(site, k[1]) and k[2] == c:
                    old.setdefault(k, []).append((a, b, c)); break
            else:
                new.append((a, b, c))
    for k in known:
        if k[0] == pid and k in old:
            print('KNOWN-FINDING: property=%s %s (%d events)' % (pid, k[3], len(old[k])))
        elif k[0] == pid:
            print('note: listed finding not observed: %s' % (k,))
    ops = {}
    for t in traces:
        for e in t:
            ops[e['op']] = ops.get(e['op'], 0) + 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': states + d, 'transitions': trans + g, 'model_states': states, 'model_transitions': trans,
                       'trace_states': d, 'plan_cells': len(cells), 'plan_cells_executed': len(cells & seen),
                       'traces_validated_against_impl': n_real, 'events': n_ev, 'events_by_operation': ops,
                       'binding_mutants': len(mut), 'binding_mutants_rejected': len(killed),
                       'seconds': {'model': round(t2 - t1, 2), 'driver': round(t3 - t2, 2), 'validate': round(t4 - t3, 2)},
                       'samples': [json.loads(json.dumps(e)[:4000]) if len(json.dumps(e)) < 4000 else {'op': e['op']}
                                   for t in random.Random(seed).sample(traces, min(4, n_real)) for e in t[:2]]},
          'assumptions': cfg.get('assumptions', []), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if mut and not killed and not illtyped:
        raise Machinery('the binding rejected none of %d corrupted traces' % len(mut))
    print('%s %s: %d model states, %d plan cells, %d traces, %d events, %d/%d corrupted traces rejected, %.1fs (model %.1f driver %.1f validate %.1f)' % (
        pid, tier, states, len(cells), n_real, n_ev, len(killed), len(mut), time.time() - t0, t2 - t1, t3 - t2, t4 - t3))
    if os.environ.get('VF_MUT'):
        for m, (k, j, t) in enumerate(mut):
            if m not in killed:
                print('  survived:', json.dumps({k2: v for k2, v in t[j].items()})[:300])
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier,
                       'violations': [{'trace': a, 'event': b, 'clause': c, 'events': traces[a][:b + 1][-12:]} for a, b, c in new[:400]]}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        hist = {}
        for a, b, c in new:
            hist.setdefault((traces[a][b]['op'], c), []).append((a, b))
        for (op, c), w in sorted(hist.items(), key=lambda x: -len(x[1]))[:12]:
            a, b = w[0]
            print('  %s / %s: %d events, e.g. %s' % (op, c, len(w), json.dumps(traces[a][b])[:700]))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
