from fluids import piping as M


def run(job, rng, T, tier):
    k, by, n = job['kind'], job['by'], job['name']
    T.trace(job['cell'])
    x, y = float(job['x']), float(job['y'])
    for _ in range(1 if tier == 'quick' else 8):
        if k == 'erosion':
            for _ in range(60): T.call('erosion', M.erosional_velocity, dict(rho=rng.log(.1, 3000), C=rng.uniform(50, 300)))
        elif k == 'pipe':
            sch = n
            if n.isdigit() and rng.random() < .3: sch = rng.choice([int(n), float(n)])
            if n == '40' and rng.random() < .5: kw0 = {}
            else: kw0 = dict(schedule=sch)
            f = M.nearest_pipe
            if by == 'NPS':
                T.call('pipe', f, dict(NPS=x if x % 1 or rng.random() < .5 else int(x), **kw0), sch=n)
                if rng.random() < .3: T.call('pipe', f, dict(NPS=x + rng.choice([.01, .3, -.06]), **kw0), sch=n)
                if rng.random() < .05: T.call('pipe', f, dict(NPS=x, schedule=n + rng.choice(['x', ' ', 'Q'])), sch='none')
            else:
                for v in (x*1e-3, float('%.9g' % (x/1000)), (y + (x - y)*rng.uniform(.001, .999))*1e-3, x*1e-3*(1 - 1e-8), x*1e-3*(1 + 1e-8), x*1e-3*rng.uniform(1, 1.3)):
                    kw = {by: v, **kw0}
                    if rng.random() < .1: kw['NPS'] = rng.choice([1, 2, 8])      # a diameter takes precedence
                    if by == 'Di' and rng.random() < .1: kw['Do'] = v*rng.uniform(.5, 2)
                    T.call('pipe', f, kw, sch=n)
                # a returned pipe asked for again is the same pipe
                r = f(**{by: x*1e-3, **kw0})
                T.call('pipe', f, {by: r[1 if by == 'Di' else 2], **kw0}, sch=n)
        elif by == 't':
            if job['row'] == 1: vals = [x, x*(1 + rng.uniform(1e-6, .5))]
            else:
                st = y - x
                vals = [x, x + st*rng.uniform(.002, .0999), x + st*rng.uniform(.1001, .999), x + st*.09999, x + st*.10001]
            if job['row'] == len(M.wire_schedules[n][0]): vals += [x*rng.uniform(.01, .99)]
            for t in vals:
                t = round(t, 9)
                if rng.random() < .5: kw, inch = dict(t=t*.0254), round(t*.0254/.0254, 9)
                else: kw, inch = dict(t=t, SI=False), t
                if n != 'BWG' or rng.random() < .5: kw['schedule'] = n
                T.call('gauge', M.gauge_from_t, kw, sch=n, inch=inch, site='below' if t < M.wire_schedules[n][1][-1] - 1e-9 else 'gauge')
            if rng.random() < .05: T.call('gauge', M.gauge_from_t, dict(t=.001, schedule=rng.choice(['bwg', 'XX', ''])), sch='none', inch=.04)
        else:
            for si in (True, False):
                kw = dict(gauge=x, schedule=n)
                if not si or rng.random() < .5: kw['SI'] = si
                T.call('thickness', M.t_from_gauge, kw, sch=n, si=si)
            if rng.random() < .1: T.call('thickness', M.t_from_gauge, dict(gauge=x + .37, schedule=n), sch=n, si=True)
            if rng.random() < .05: T.call('thickness', M.t_from_gauge, dict(gauge=x, schedule=rng.choice(['bwg', 'XX', ''])), sch='none', si=True)
