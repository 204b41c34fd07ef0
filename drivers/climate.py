import datetime, os, shutil, tempfile, calendar, gzip, io, types
import numpy as np
import fluids.design_climate as C

F = ("TEMP", "DEWP", "SLP", "STP", "VISIB", "WDSP", "MXSPD", "GUST", "MAX", "MIN", "PRCP", "SNDP")
MISS = dict(zip(F, ('9999.9', '9999.9', '9999.9', '9999.9', '999.9', '999.9', '999.9', '999.9', '9999.9', '9999.9', '99.99', '999.9')))
RANGE = dict(TEMP=(-60, 120), DEWP=(-60, 90), SLP=(950, 1060), STP=(600, 1060), VISIB=(0, 30), WDSP=(0, 60), MXSPD=(0, 90), GUST=(0, 110), MAX=(-50, 130), MIN=(-80, 100), PRCP=(0, 9), SNDP=(0, 80))


def call(T, op, fn, kw, **x):
    out = T.call(op, fn, kw, **x)
    T.cell = None
    return out


def draw(rng, f):
    lo, hi = RANGE[f]
    return round(rng.uniform(lo, hi), 2 if f == 'PRCP' else 1)


def line(y, m, d, v, counts, weather, flags=('', '', '')):
    t = lambda f, w, p: ('%.*f' % (p, v[f]) if v[f] is not None else MISS[f]).rjust(w)
    c = ['%2d' % n for n in counts]
    s = '712650 99999  %04d%02d%02d  ' % (y, m, d)
    s += '%s %s  %s %s  %s %s  %s %s  %s %s  %s %s  ' % (t('TEMP', 6, 1), c[0], t('DEWP', 6, 1), c[1], t('SLP', 6, 1), c[2], t('STP', 6, 1), c[3], t('VISIB', 5, 1), c[4], t('WDSP', 5, 1), c[5])
    s += '%s  %s  %s%s  %s%s %s%s %s  %s' % (t('MXSPD', 5, 1), t('GUST', 5, 1), t('MAX', 6, 1), flags[0], t('MIN', 6, 1), flags[1], t('PRCP', 5, 2), flags[2], t('SNDP', 5, 1), ''.join('1' if w else '0' for w in weather))
    return s


def degrees(job, rng, T):
    f = job['f']
    base = rng.choice([288.65, 291.15, 290.0, 300.0])
    if job['z'] == 'default': base = {'heating': 291.4833333333333, 'cooling': 283.15}[f]
    d = 10**rng.uniform(-4, 1.5)
    kw = dict(T=base if job['z'] == 'at' else base + (d if (job['z'] == 'above') else -d if job['z'] == 'below' else rng.uniform(-20, 20)))
    if job['z'] != 'default': kw['T_base'] = base
    if not job['t'] or rng.random() < .5: kw['truncate'] = job['t']
    call(T, 'degrees', getattr(C, f + '_degree_days'), kw, f=f)


def day(job, rng, T):
    k = job['k']
    v = {f: draw(rng, f) for f in F}
    if isinstance(k, int):
        if k: v[F[k - 1]] = None
        if rng.random() < .3: v[rng.choice(F)] = None
    elif k == 'edge999':
        for f in ('SLP', 'STP'):
            if rng.random() < .7: v[f] = 999.9
        if rng.random() < .5: v['SLP'] = None
    elif k == 'edge99':
        v['MAX'] = 99.9; v['TEMP'] = rng.choice([99.9, 99.0]); v['VISIB'] = 99.9; v['WDSP'] = 99.9; v['GUST'] = 99.9; v['SNDP'] = 99.9; v['PRCP'] = rng.choice([99.98, 9.99, .99, None])
    elif k == 'zero':
        for f in F: v[f] = 0.0
    elif k == 'allmissing': v = {f: None for f in F}
    flags = [rng.choice(['*', ' ']), rng.choice(['*', ' ']), rng.choice(list('ABCDEFGHI'))]
    if k == 'flags': flags[:2] = ['*', '*']
    y = rng.choice([1933, 1999, 2000, 2012]); m = rng.randrange(1, 13); d = rng.randrange(1, calendar.monthrange(y, m)[1] + 1)
    counts = [rng.randrange(0, 25) for _ in range(6)]
    weather = [rng.random() < .4 for _ in range(6)]
    def parse(line, SI, to_datetime):
        r = C.gsod_day_parser(line, SI=SI, to_datetime=to_datetime)
        if to_datetime:
            dt = r.DATE
            date = [dt.year, dt.month, dt.day, dt.hour]
        else: date = r.DATE
        return [[getattr(r, f) for f in F], [getattr(r, f) for f in C.gsod_int_fields], date, [getattr(r, w) for w in ('fog', 'rain', 'snow_ice', 'hail', 'thunder', 'tornado')]]
    l = line(y, m, d, v, counts, weather, flags)
    if rng.random() < .5: l += rng.choice(['\n', '  ', '\r\n'])
    call(T, 'day', parse, dict(line=l, SI=job['si'], to_datetime=job['d']), values=[v[f] for f in F], counts=counts, date=[y, m, d, 0] if job['d'] else '%04d%02d%02d' % (y, m, d), weather=weather)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vfclim')
        return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)


def refuse(*a, **k): raise OSError('no network')


def station_data(d, st):
    return C.StationDataGSOD(st, data_dir_override=d)


def months(job, rng, T):
    n, g = job['n'], job['g']
    first = rng.choice([1996, 2000, 1931, 2003]) if g != 'leap' else 2000 - rng.randrange(n)
    years = list(range(first, first + n))
    days, text = [], {}
    hole = rng.choice(years) if n > 1 and rng.random() < .4 else None
    for y in years:
        if y == hole: continue
        L = ['header']
        for m in range(1, 13):
            base = rng.uniform(0, 90)
            nd = calendar.monthrange(y, m)[1]
            thin = rng.random() < dict(full=0, gaps=.3, sparse=.6, twice=.1, leap=.2)[g]
            for k in range(1, nd + 1):
                if thin and rng.random() < rng.choice([.1, .25, .3]): continue
                for _ in range(2 if g == 'twice' and rng.random() < .05 else 1):
                    v = {f: draw(rng, f) for f in F}
                    v['TEMP'] = round(base + rng.uniform(-9, 9), 1)
                    if rng.random() < .03: v['TEMP'] = None
                    if rng.random() < .03: v['WDSP'] = None
                    days.append(dict(y=y, m=m, d=k, t=v['TEMP'], w=v['WDSP']))
                    L.append(line(y, m, k, v, [24]*6, [False]*6, ('*', ' ', 'G')))
        text[y] = '\n'.join(L) + '\n'
    with Scratch() as d:
        for y, t in text.items():
            os.makedirs(os.path.join(d, str(y)))
            with open(os.path.join(d, str(y), '712650-99999.op'), 'w') as f: f.write(t)
        st = C.IntegratedSurfaceDatabaseStation(712650.0, None, 'X', 'CA', None, None, 1.0, 2.0, 3.0, first*10000 + 101., years[-1]*10000 + 1231.)
        old = C.urlopen
        C.urlopen = refuse
        try: sd = station_data(d, st)
        finally: C.urlopen = old
    T.event('station', days=days, years=years)
    T.cell = None
    for w in ('temp', 'wind'):
        for _ in range(2):
            y = job['y']
            older, newer = dict(all=(first, years[-1]), some=(rng.choice(years), rng.choice(years + [years[-1] + 5])), none=(years[-1] + 1, years[-1] + 3), default=(None, None))[y]
            if y == 'default' and rng.random() < .4: older = rng.choice(years)
            least = rng.choice([23, 23, 1, 15, 28, 31])
            yearly = rng.random() < .4
            def go(w, older, newer, least, yearly, sd=sd):
                f = sd.month_average_temperature if w == 'temp' else sd.month_average_windspeed
                r = f(older, newer, include_yearly=yearly, minimum_days=least)
                return [r[0], sorted(r[1]), [r[1][k] for k in sorted(r[1])]] if yearly else r
            call(T, 'months', go, dict(w=w, older=older, newer=newer, least=least, yearly=yearly))
        call(T, 'extremes', lambda older, newer, least, sd=sd: [sd.coldest_month(older, newer, least), sd.warmest_month(older, newer, least)], dict(older=older, newer=newer, least=least))


def load_table(rows):
    """Have the module read a table of stations of ours, in a scratch folder."""
    keep = {k: getattr(C, k) for k in ('folder', '_stations', '_latlongs', '_station_count', '_kd_tree')}
    d = tempfile.mkdtemp(prefix='vfclim')
    with open(os.path.join(d, 'isd-history-cleaned.tsv'), 'w') as f:
        for r in rows: f.write('\t'.join(r) + '\n')
    C.folder = d
    C._stations = C._latlongs = C._station_count = C._kd_tree = None
    return d, keep


def unload(d, keep):
    for k, v in keep.items(): setattr(C, k, v)
    shutil.rmtree(d, ignore_errors=True)


def nearest(job, rng, T):
    n, w = job['n'], job['w']
    rows, st, loaded = [], [], []
    for i in range(n + rng.randrange(0, 3)):
        lat, lon = round(rng.uniform(-80, 80), 3), round(rng.uniform(-179, 179), 3)
        if w == 'tie': lat, lon = float(rng.choice([10, 20])), float(rng.choice([-30, 30]))
        blank = len(st) >= n
        usaf = '%06d' % rng.randrange(1, 999999)
        if rng.random() < .1: usaf = 'A%05d' % rng.randrange(99999)
        wban = rng.choice(['99999', '%05d' % rng.randrange(1, 99998)])
        end = rng.randrange(1950, 2024)*10000 + rng.randrange(1, 13)*100 + rng.randrange(1, 29)
        elev = rng.choice(['', '%.1f' % rng.uniform(-10, 3000)])
        st_, icao = rng.choice(['', 'TX']), rng.choice(['', 'KDFW'])
        rows.append([usaf, wban, 'PLACE %d' % i, rng.choice(['US', 'CA', '']), st_, icao, '' if blank and rng.random() < .5 else '%.3f' % lat, '' if blank else '%.3f' % lon, elev, '19410203', str(end)])
        if not blank:
            uid = int(usaf) if usaf.isdigit() else usaf
            wb = None if wban == '99999' else wban
            st.append(dict(id=[uid, wb, 'PLACE %d' % i], lat=lat, lon=lon, e=end))
            loaded.append([uid, wb, 'PLACE %d' % i, rows[-1][3] or None, st_ or None, icao or None, lat, lon, float(elev) if elev else None, 19410203, end])
    d, keep = load_table(rows)
    try:
        order = ['get_stations', 'get_station_count', 'get_latlongs', 'get_kd_tree']
        rng.shuffle(order)
        slots = ('USAF', 'WBAN', 'NAME', 'CTRY', 'ST', 'ICAO', 'LAT', 'LON', 'ELEV', 'BEGIN', 'END')
        def load():
            for g in order: getattr(C, g)()
            return [[getattr(s, k) for k in slots] for s in C.get_stations()]
        call(T, 'load', load, {}, again=False, stations=st, loaded=loaded)
        call(T, 'agree', lambda: C.get_station_count() == len(C.get_stations()) == len(C.get_latlongs()) == C.get_kd_tree().n and all((a[0], a[1]) == (s.LAT, s.LON) for a, s in zip(C.get_latlongs(), C.get_stations())), {}, again=False)
        ends = sorted(s['e'] for s in st)
        for _ in range(5):
            s = rng.choice(st)
            lat, lon = (rng.uniform(-85, 85), rng.uniform(-180, 180)) if rng.random() < .6 else (s['lat'], s['lon'])
            since = dict(any=0, recent=rng.choice(ends + [19800101, 20100101]), never=20991231, tie=rng.choice([0] + ends))[w]
            def go(lat, lon, since, k=job['k']):
                r = C.get_closest_station(lat, lon, minumum_recent_data=since, match_max=k)
                return [r.USAF, r.WBAN, r.NAME]
            call(T, 'nearest', go, dict(lat=lat, lon=lon, since=since), again=False)
    finally: unload(d, keep)


def history(job, rng, T):
    """The table of stations shipped: a sample of its lines, and every count."""
    slots = ('USAF', 'WBAN', 'NAME', 'CTRY', 'ST', 'ICAO', 'LAT', 'LON', 'ELEV', 'BEGIN', 'END')
    with open(os.path.join(C.folder, 'isd-history-cleaned.tsv')) as f: L = [x.rstrip('\n').split('\t') for x in f]
    L = [x for x in L if x[6] and x[7] and float(x[6]) and float(x[7])]
    idx = rng.sample(range(len(L)), 60)
    st, loaded = [], []
    for i in idx:
        x = [y or None for y in L[i]]
        uid = int(x[0]) if x[0] and x[0].isdigit() else x[0]
        if x[0] == '999999': uid = 999999
        if x[0] in ('99999', '099999'): uid = None
        row = [uid, None if x[1] == '99999' else x[1], x[2], x[3], x[4], x[5], float(x[6]), float(x[7]), float(x[8]) if x[8] else None, int(x[9]), int(x[10])]
        loaded.append(row)
    call(T, 'load', lambda: [[getattr(C.get_stations()[i], k) for k in slots] for i in idx], {}, stations=[], loaded=loaded, again=False)
    call(T, 'agree', lambda: C.get_station_count() == len(L) == len(C.get_stations()) == len(C.get_latlongs()) == C.get_kd_tree().n, {}, again=False)


class Net:
    def __init__(self, text): self.up, self.n, self.urls, self.text = True, 0, [], text
    def __call__(self, url, timeout=None):
        self.n += 1; self.urls.append(url)
        if not self.up: raise OSError('down')
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='w') as f: f.write(self.text.encode())
        return io.BytesIO(b.getvalue())


def files(job, rng, T):
    text = 'header\nline of %d\n' % rng.randrange(10**9)
    net = Net(text)
    old = C.urlopen, C.data_dir
    C.urlopen = net
    with Scratch() as d:
        over = rng.random() < .5
        C.data_dir = os.path.join(d, 'x')
        base = os.path.join(d, 'y') if over else os.path.join(d, 'x', 'gsod')
        path = os.path.join(base, '1999', '712650-99999.op')
        def state():
            if not os.path.exists(path): return 'absent'
            with open(path) as f: t = f.read()
            return 'good' if t == text else 'empty' if t == '' else 'marker' if t == 'Exception' else 'other'
        try:
            for h in job['hist']:
                if h in ('truncate', 'delete'):
                    if h == 'truncate': open(path, 'w').close()
                    else: os.remove(path)
                    T.event('damage', to='empty' if h == 'truncate' else 'absent')
                    T.cell = None
                    continue
                net.up = h == 'up'
                def ask():
                    try: r = 'data' if C.get_station_year_text(712650, 99999, 1999, data_dir_override=os.path.join(d, 'y') if over else None) == text else 'other'
                    except Exception as e: r = '!' + type(e).__name__
                    return [r, net.n, state()]
                call(T, 'files', ask, {}, again=False, net=h)
        finally: C.urlopen, C.data_dir = old


def names(job, rng, T):
    k = job['k']
    wmo = dict(plain=rng.randrange(100000, 999999), zeros=rng.randrange(1, 99999), letters='A%05d' % rng.randrange(99999), missing=None, wban=rng.randrange(100000, 999999))[k]
    if k in ('plain', 'zeros') and rng.random() < .5: wmo = float(wmo)
    wban = rng.choice(['%05d' % rng.randrange(1, 99999)]) if k == 'wban' else rng.choice([None, 99999, '99999'])
    year = rng.randrange(1930, 2030)
    net = Net('data')
    old = C.urlopen
    C.urlopen = net
    want = '%s-%s' % ('999999' if wmo is None else wmo if isinstance(wmo, str) else '%06d' % wmo, '99999' if wban is None else wban)
    try:
        with Scratch() as d:
            def ask(wmo, wban, year):
                C.get_station_year_text(wmo, wban, year, data_dir_override=d)
                return [net.urls[-1], sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)]
            call(T, 'name', ask, dict(wmo=wmo, wban=wban, year=year), again=False, want=['ftp://ftp.ncdc.noaa.gov/pub/data/gsod/%d/%s-%d.op.gz' % (year, want, year), ['%d/%s.op' % (year, want)]])
    finally: C.urlopen = old


def places(job, rng, T):
    k = job['k']
    pool = dict(plain=['Fredericton, NB', 'Calgary', 'calgary', 'Calgary '], numeric=['00501', '501', '1e3', '1000', '0x10', '16', '5.0', '5'], unicode=['Köln', 'Koln', '東京', "O'Hare", 'a;b'], nogeocoder=['Nowhere', 'Elsewhere'], repeat=['Here', 'There', 'Here'])[k]
    loc = {a: (round(rng.uniform(-80, 80), 5), round(rng.uniform(-180, 180), 5)) for a in pool}
    keep = C.geolocator, C.simple_geopy_cache, C.geolocator_disk_cache_loc, C.geopy_geolocator
    n = [0]
    class G:
        def geocode(self, a):
            n[0] += 1
            return types.SimpleNamespace(latitude=loc[a][0], longitude=loc[a][1])
    with Scratch() as d:
        try:
            C.geolocator_disk_cache_loc = os.path.join(d, 'cache.sqlite3')
            C.simple_geopy_cache = None
            C.geolocator = G()
            up = True
            for _ in range(9):
                if k == 'nogeocoder' and rng.random() < .4:
                    up = not up
                    C.geopy_geolocator = keep[3] if up else (lambda: None)
                if rng.random() < .15:      # another session, the same disk
                    if C.simple_geopy_cache is not None: C.simple_geopy_cache.connection.close()
                    C.simple_geopy_cache = None
                a = rng.choice(pool)
                call(T, 'place', lambda address: [C.geocode(address), n[0]], dict(address=a), again=False, key='k' + a, want=list(loc[a]), stub=up)
            if C.simple_geopy_cache is not None: C.simple_geopy_cache.connection.close()
        finally: C.geolocator, C.simple_geopy_cache, C.geolocator_disk_cache_loc, C.geopy_geolocator = keep


def run(job, rng, T, tier):
    T.trace(job['cell'])
    n = {'months': 1, 'files': 1, 'history': 1}.get(job['m'], 3)
    if tier != 'quick': n *= 6 if job['m'] != 'history' else 3
    for r in range(n):
        if r: T.trace()
        globals()[job['m']](job, rng, T)
