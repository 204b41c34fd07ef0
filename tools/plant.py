#!/usr/bin/env python3
"""plant.py [ID ...]: build and confirm planted bugs from tools/seeds/*.py.

Each seed module has S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
For each: the patch is made in a scratch copy of /repo, the demo has to pass without and fail
with it, the stable tests have to pass with it, and the check of the property is run on it.
Confirmed bugs are kept in seeded/<id>; the outcome of the check goes to tools/seeds/catches.json."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('PLANT_OUT', HERE)   # a staging folder keeps the working tree clean during long runs
RES = os.path.join(OUT, 'tools', 'seeds', 'catches.json')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        sp = importlib.util.spec_from_file_location('s', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.S
    return out


def main():
    want = set(a for a in sys.argv[1:] if not a.startswith('-'))
    checkonly = '-c' in sys.argv
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in load():
        sid = s['id']
        if want and sid not in want or (not want and res.get(sid, {}).get('done')):
            continue
        W = tempfile.mkdtemp(prefix='plant_')
        R = os.path.join(W, 'repo')
        r = {'property': s['prop']}
        try:
            sh('git -C /repo worktree prune; git clone -q /repo %s' % R)
            d = os.path.join(W, 'demo')
            os.makedirs(d)
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
            clean = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != 1:
                    r['error'] = '%s: %d matches of %r' % (f, t.count(old), old[:60]); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                print(sid, r); continue
            diff = sh('git -C %s diff' % R).stdout
            bad = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
            r['demo'] = [clean.returncode, bad.returncode]
            if clean.returncode or not bad.returncode:
                print(sid, r, clean.stdout[-600:], clean.stderr[-600:], bad.stdout[-600:]); continue
            if not checkonly:
                ts = open('/opt/vp/test.sh').read().replace('cd /repo', 'export PYTHONPATH=%s; cd %s' % (R, R))
                open(W + '/test.sh', 'w').write(ts)
                sh('bash %s/test.sh %s/out.json' % (W, W))
                o = json.load(open(W + '/out.json'))
                stable = base['stable']
                passed = set(o['passed'])
                fails = [t for t in stable if t not in passed]
                r['tests_failed'] = fails[:5]
                if fails:
                    print(sid, 'TESTS FAIL', fails[:5]); continue
            env = dict(os.environ, VERIF_REPO=R, VERIF_SEED='1')
            c = subprocess.run(['python3', os.path.join(HERE, 'check.py'), s['prop'], 'quick'], capture_output=True, text=True, env=env, cwd=HERE)
            r['check'] = c.returncode
            r['caught'] = c.returncode == 1 and ('VIOLATION property=%s' % s['prop']) in c.stdout
            r['how'] = [l for l in c.stdout.splitlines() if l.startswith(('  ', 'VIOLATION', 'MACH'))][:3]
            out = os.path.join(OUT, 'seeded', sid)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            shutil.copy(d + '/demo.sh', out); shutil.copy(d + '/demo.py', out)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            r['done'] = r['caught']
            print(sid, 'CAUGHT' if r['caught'] else 'MISSED', r.get('how'), flush=True)
            if not r['caught']:
                print(c.stdout[-800:])
        finally:
            shutil.rmtree(W, ignore_errors=True)
            res = json.load(open(RES)) if os.path.exists(RES) else {}
            res[sid] = r
            json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)


main()
