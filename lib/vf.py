"""Driver side of the harness: runs the real code and records what it did.

A driver (drivers/<name>.py) defines
    jobs(plan, tier) -> list of jobs          (optional; default: the plan itself)
    run(job, rng, T, tier)                    executes one job, recording with T
`plan` is what the TLA+ model of the property emitted.  Each trace is a list of
events; an event is one public call of the implementation with its arguments
and its result, or the name of the exception it raised.
"""
import copy, json, math, numbers, os, random, signal, sys, traceback, warnings

warnings.simplefilter('ignore')
os.environ.setdefault('TZ', 'UTC')
CALL_TIMEOUT = 60


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def err(e):
    return '!' + type(e).__name__


def enc(v, depth=0):
    """A JSON-encodable image of any result."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, BaseException):
        return err(v)
    if isinstance(v, numbers.Integral):
        return int(v)
    if isinstance(v, complex):
        return {'re': float(v.real), 'im': float(v.imag)}
    if isinstance(v, numbers.Real):
        return float(v)
    if depth > 8:
        return '!deep'
    t = type(v).__module__
    if t.startswith('numpy'):
        import numpy as np
        if isinstance(v, np.ndarray):
            return [enc(x, depth + 1) for x in v.tolist()] if v.ndim else enc(v.item(), depth + 1)
        if isinstance(v, np.generic):
            return enc(v.item(), depth + 1)
    if isinstance(v, dict):
        return {str(k): enc(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, range)):
        return [enc(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((enc(x, depth + 1) for x in v), key=repr)
    return '?' + type(v).__name__


class Recorder:
    def __init__(self, again=0.08, seed=0):
        self.traces = []
        self.cur = None
        self.rp = random.Random('again:%s' % seed)
        self.p_again = again
        self.pending = []

    def trace(self, cell=None):
        self.cur = []
        self.traces.append(self.cur)
        self.cell = cell
        return self

    def event(self, op, **f):
        e = {'op': op}
        if self.cell is not None:
            e['cell'] = self.cell
        for k, v in f.items():
            e[k] = enc(v)
        self.cur.append(e)
        return e

    def call(self, op, fn, kw=None, again=True, raw=False, pos=(), timeout=CALL_TIMEOUT, post=None, **extra):
        """Call fn(*pos, **kw), record the event {op, a: kw, p: pos, out}; returns the result (exception object if raised).
        post maps the result to what is recorded."""
        kw = kw or {}
        a0 = enc(kw)
        p0 = enc(list(pos))
        out = self._do(fn, pos, kw, timeout)
        rec = out
        if post is not None and not isinstance(out, BaseException):
            rec = self._do(post, (out,), {}, timeout)
        e = self.event(op, out=rec, **extra)
        e['a'] = a0
        if pos:
            e['p'] = p0
        if again and self.rp.random() < self.p_again:
            try:
                self.pending.append((e, fn, copy.deepcopy(pos), copy.deepcopy(kw), post, timeout))
            except Exception:
                pass
        return out

    @staticmethod
    def _do(fn, pos, kw, timeout):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            return fn(*pos, **kw)
        except Exception as ex:
            return ex
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def finish(self):
        self.rp.shuffle(self.pending)
        for e, fn, pos, kw, post, timeout in self.pending:
            out = self._do(fn, pos, kw, timeout)
            if post is not None and not isinstance(out, BaseException):
                out = self._do(post, (out,), {}, timeout)
            e['again'] = enc(out)


class Rng(random.Random):
    def log(self, a, b):
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def near(self, x, scale=None):
        """A value at, or within a few ulps to a few percent of, x."""
        k = self.randrange(5)
        if k == 0:
            return x
        d = 10.0 ** self.uniform(-14, -1.5) * (abs(x) if scale is None else scale)
        return x + d if self.random() < 0.5 else x - d


def worker(args):
    driver, jobs, seed, tier, path, budget = args
    import time
    t0 = time.time()
    R = Recorder(again=getattr(driver, 'AGAIN', 0.08), seed=seed)
    cov = os.environ.get('VF_COV')
    if cov:   # lines of the implementation executed (used by tools/mutcode.py only)
        hit, mon = set(), sys.monitoring
        mon.use_tool_id(3, 'vf')
        mon.register_callback(3, mon.events.LINE, lambda code, line: (hit.add((code.co_filename, line)), mon.DISABLE)[1])
        mon.set_events(3, mon.events.LINE)
    for k, job in jobs:
        rng = Rng('%s:%d' % (seed, k))
        cell = job.get('cell') if isinstance(job, dict) else None
        try:
            driver.run(job, rng, R, tier)
        except Exception as ex:
            R.trace(cell)
            R.event('__crash__', out=ex, where=''.join(traceback.format_exception(ex))[-1500:], job=repr(job)[:500])
    R.finish()
    if cov:
        mon.set_events(3, 0)
        json.dump(sorted(hit), open('%s.%s' % (cov, path.rsplit('.', 1)[-1]), 'w'))
    n = 0
    with open(path, 'w') as f:
        for t in R.traces:
            if t:
                n += len(t)
                f.write(json.dumps(t))
                f.write('\n')
    return n


def main():
    """vf.py DRIVER PLAN OUT SEED TIER NPROC"""
    name, plan_path, out, seed, tier, nproc = sys.argv[1:7]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(here, 'drivers'))
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.modules['vf'] = sys.modules['__main__']
    plan = []
    if os.path.exists(plan_path):
        with open(plan_path) as f:
            plan = [json.loads(x) for x in f if x.strip()]
        plan.sort(key=lambda r: json.dumps(r, sort_keys=True))
    driver = __import__(name)
    jobs = driver.jobs(plan, tier) if hasattr(driver, 'jobs') else plan
    jobs = list(enumerate(jobs))
    nproc = max(1, min(int(nproc), len(jobs)))
    parts = [jobs[k::nproc] for k in range(nproc)]
    args = [(driver, parts[k], seed, tier, '%s.%d' % (out, k), None) for k in range(nproc)]
    pids = []
    for a in args:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(a)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, s = os.waitpid(pid, 0)
        bad |= s
    if bad:
        sys.exit(3)
    with open(out, 'w') as o:
        for a in args:
            with open(a[4]) as f:
                for line in f:
                    o.write(line)
            os.unlink(a[4])


if __name__ == '__main__':
    main()
