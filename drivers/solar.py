import calendar, datetime as D
from fluids import atmosphere as A
from fluids.optional import spa as S

EPOCH = D.datetime(1970, 1, 1)


def call(T, *p, **k):
    T.call(*p, **k)
    T.cell = None


def moment(u, off):
    """The moment u seconds after 1970, naive (UTC) or with a time zone off minutes east."""
    m = EPOCH + D.timedelta(seconds=u)
    if off is None: return m
    return m.replace(tzinfo=D.timezone.utc).astimezone(D.timezone(D.timedelta(minutes=off)))


def zone(rng):
    return rng.choice([None, None, 0, -420, -210, 330, 480, 765, -600])


def secs(t):
    if t.tzinfo is None: return (t - EPOCH).total_seconds()
    return (t - EPOCH.replace(tzinfo=D.timezone.utc)).total_seconds()


def position(u, lat, lon, off=None, Z=None, T=None, P=None, refr=None):
    kw = {k: v for k, v in dict(Z=Z, T=T, P=P, atmos_refract=refr).items() if v is not None}
    return A.solar_position(moment(u, off), lat, lon, **kw)


def rad(u, lat, lon, Z, tilt, saz, tl, off=None, T=None, P=None, I0=None, refr=None, albedo=None, model=None, az0=None, tz=None, az=None, extra=None, **_):
    kw = {k: v for k, v in dict(T=T, P=P, solar_constant=I0, atmos_refract=refr, albedo=albedo, airmass_model=model).items() if v is not None}
    if az0 is not None: kw['cache'] = {'apparent_zenith': az0, 'zenith': tz, 'azimuth': az}
    return A.solar_irradiation(latitude=lat, longitude=lon, Z=Z, moment=moment(u, off), surface_tilt=tilt, surface_azimuth=saz, linke_turbidity=tl, **kw)


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 4
    if m == 'sun':
        for i in range(2*n):
            y, mo = job['year'], job['month']
            u = calendar.timegm((y, mo, rng.randrange(1, 29), (job['hour'] + rng.randrange(7)) % 24, rng.randrange(60), rng.randrange(60)))
            lat = float(job['lat'])
            if abs(lat) < 90 and rng.random() < .7: lat += rng.uniform(-9, 9)
            kw = dict(u=u, lat=lat, lon=rng.choice([0.0, rng.uniform(-180, 180), rng.uniform(-180, 180)]))
            off = zone(rng)
            if off is not None: kw['off'] = off
            o = dict(Z=rng.uniform(-100, 5000), T=rng.uniform(230, 320), P=rng.uniform(5e4, 1.05e5), refr=rng.uniform(0, 1))
            for k in o:
                if rng.random() < .6: kw[k] = o[k]
            call(T, 'sun', position, kw, year=y, month=mo)
            if i == 0:
                call(T, 'distance', lambda u, off=None: A.earthsun_distance(moment(u, off)), {k: kw[k] for k in ('u', 'off') if k in kw}, year=y, month=mo)
    elif m == 'day':
        y, mo = job['year'], job['month']
        for i in range(n):
            u = calendar.timegm((y, mo, rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), 0))
            lat = float(job['lat'])
            if abs(lat) < 90: lat += rng.uniform(-12, 9)
            off = rng.choice([None, None, 0, -420, 330, 480, 765, -600])
            def f(u, lat, lon, day, off=None, T=T):
                r = A.sunrise_sunset(moment(u, off), lat, lon)
                f.zone = all((t.tzinfo is None) if off is None else (t.utcoffset() == D.timedelta(minutes=off)) for t in r)
                return [secs(t) for t in r]
            kw = dict(u=u, lat=lat, lon=rng.uniform(-180, 180), day=u - u % 86400)
            if off is not None: kw['off'] = off
            f.zone = True
            T.call('times', f, kw, year=y, month=mo, site='naive' if off is None else 'zoned-crossing' if (u + 2*off*60)//86400 != u//86400 else 'zoned')
            T.cur[-1]['zone'] = f.zone
            T.cell = None
    elif m == 'deltat':
        lo = [-2000, -500, 500, 1600, 1700, 1800, 1860, 1900, 1920, 1941, 1961, 1986, 2005, 2050, 2150, 3000]
        i = job['i']
        a, b = lo[i], lo[i + 1]
        for y in {a, b - 1, rng.randrange(a, b), rng.randrange(a, b)}:
            call(T, 'deltat', S.calculate_deltat, {'year': y, 'month': rng.randrange(1, 13)})
        if i == 13: call(T, 'deltat', S.calculate_deltat, {'year': 2150, 'month': 1}); call(T, 'deltat', S.calculate_deltat, {'year': rng.randrange(2150, 3000), 'month': 6})
    elif m == 'julian':
        for _ in range(20*n):
            t = (rng.randrange(1700, 2200), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            us = rng.randrange(10**6)
            kw = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), t + (us,)))
            call(T, 'julian', S.julian_day_dt, kw, u=float(calendar.timegm(t)) + us*1e-6)
            c = rng.uniform(-1, 1)
            x = dict(zip(('x0', 'x1', 'x2', 'x3', 'x4'), [S.mean_elongation(c), S.mean_anomaly_sun(c), S.mean_anomaly_moon(c), S.moon_argument_latitude(c), S.moon_ascending_longitude(c)]))
            kw = dict(julian_ephemeris_century=c, **x)
            call(T, 'nutpsi', S.longitude_nutation, kw, jce=c)
            call(T, 'nuteps', S.obliquity_nutation, kw, jce=c)
            call(T, 'nuts', S.longitude_obliquity_nutation, kw, jce=c)
        for _ in range(8*n):
            j = rng.uniform(-4, 4)
            call(T, 'orbit', lambda jme: [S.heliocentric_longitude(jme), S.heliocentric_latitude(jme), S.heliocentric_radius_vector(jme), S.mean_ecliptic_obliquity(jme)], {'jme': j})
            c = rng.uniform(-10, 10)
            call(T, 'arguments', lambda jce: [S.mean_elongation(jce), S.mean_anomaly_sun(jce), S.mean_anomaly_moon(jce), S.moon_argument_latitude(jce), S.moon_ascending_longitude(jce)], {'jce': c})
        call(T, 'refused', lambda: S.transit_sunrise_sunset(100.0, 10.0, 10.0, 60.0), {})
    else:
        c = job['c']
        for i in range(8*n):
            y, mo = rng.randrange(1990, 2040), rng.randrange(1, 13)
            t = (y, mo, rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            u = calendar.timegm(t)
            kw = dict(u=u, lat=rng.uniform(-70, 70), lon=rng.uniform(-180, 180), Z=rng.uniform(-10, 500) if job['z'] == 'sea' else rng.uniform(500, 5000),
                      tilt=rng.choice([0.0, 90.0, rng.uniform(0, 90), rng.uniform(90, 180)]), saz=rng.uniform(0, 360), tl=rng.uniform(1.5, 8))
            off = zone(rng)
            if off is not None: kw['off'] = off
            o = dict(I0=rng.uniform(1200, 1500), refr=rng.uniform(0, 1), albedo=rng.uniform(0, 1))
            for k in o:
                if rng.random() < .5: kw[k] = o[k]
            kw.update(T=rng.uniform(230, 320), P=rng.uniform(5e4, 1.05e5))
            cached = c != 'air' and (c in ('twilight', 'facing', 'night') or rng.random() < .6)
            if cached:
                z = {'day': rng.uniform(0, 90), 'twilight': rng.choice([rng.uniform(86, 96), 90.0, 96.07995, 96.0]), 'night': rng.uniform(96, 180), 'facing': rng.uniform(1, 89), 'model': rng.uniform(0, 90)}[c]
                kw.update(az0=z, tz=z + rng.uniform(0, .4), az=rng.uniform(0, 360))
                if c == 'facing':
                    kw['tilt'] = z
                    kw['saz'] = kw['az']
            if c == 'air':
                if i % 3: kw.pop('T')
                if i % 3 != 1: kw.pop('P')
                kw['doy'] = moment(u, off).timetuple().tm_yday
            if c == 'model':
                if i % 2: kw['model'] = 'kastenyoung1989'
                else:
                    call(T, 'refused', rad, dict(kw, model='nonesuch'))
            call(T, 'rad', rad, kw, year=y, month=mo, cached=cached, air=c == 'air', t0=0.0, p0=0.0)
