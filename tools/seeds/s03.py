S = []
def s(id, prop, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=[('fluids/' + file, old, new)], needs=needs, breaks=breaks, demo=demo))

s('l01_calm_days', 'L01', 'design_climate.py',
'''                if wind_speed is None:
                    continue''', '''                if not wind_speed:
                    continue''', 'a month with days of no wind at all', 'calm days are left out of the monthly mean wind speed',
'''
import datetime
from collections import namedtuple
from fluids.design_climate import StationDataGSOD
D = namedtuple("D", "DATE WDSP TEMP")
st = StationDataGSOD.__new__(StationDataGSOD)
st.begin, st.end = datetime.datetime(2001, 1, 1), datetime.datetime(2001, 12, 31)
d0 = datetime.datetime(2001, 1, 1)
st.parsed_data = {2001: [D(d0 + datetime.timedelta(i), float(i % 2)*4, 280.) for i in range(365)]}
for i, v in enumerate(st.month_average_windspeed(minimum_days=10)):
    days = [d.WDSP for d in st.parsed_data[2001] if d.DATE.month == i + 1]
    assert abs(v - sum(days)/len(days)) < 1e-9, (i, v)
''')
s('j01_hei_band', 'J01', 'jet_pump.py',
'    elif P_vacuum <= 20:\n', '    elif P_vacuum < 22:\n', 'a vacuum between 20 and 22 mmHg below atmospheric', 'the leakage is read from the curve of the 3 to 20 mmHg band',
'''
from fluids import vacuum_air_leakage_HEI2633 as f
mm = 133.322387415
a = f(10.0, 101325.0 - 20.5*mm); b = f(10.0, 101325.0 - 80*mm); c = f(10.0, 101325.0 - 19*mm)
assert abs(a - b) < 1e-9*b and a > c*1.1, (a, b, c)
''')
s('n01_low_first_step', 'N01', 'numerics/__init__.py',
'''        # May need to truncate p1
        if low is not None and p1 < low:
            p1 = low''', '''        # May need to truncate p1
        if low is not None and p1 < low and x0 > low:
            p1 = low''', 'a secant started on its lower bound at a negative point', 'the function is evaluated below the lower bound',
'''
from fluids.numerics import secant
seen = []
def f(x):
    seen.append(x)
    return x*x - .25
try: secant(f, -1.0, low=-1.0, high=0.0)
except Exception: pass
assert min(seen) >= -1.0, min(seen)
''')
s('n02_solve_in_place', 'N02', 'numerics/arrays.py',
'    b = b.copy()  # Create a copy to avoid modifying the input\n', '    b = b.copy() if N < 6 else b\n',
'a right hand side of six or more values', 'the right hand side the caller gave is overwritten',
'''
from fluids.numerics.arrays import solve_LU_decomposition as f
n = 7
A = [[1.0/(i + j + 1) + (i == j) for j in range(n)] for i in range(n)]
b = [float(i) for i in range(n)]
f(A, b)
assert b == [float(i) for i in range(n)], b
''')
s('n03_small_leading', 'N03', 'numerics/polynomial_utils.py',
'''    for i in range(len(coeffs)):
        if coeffs[i] != 0.0:
            return coeffs[i:]''', '''    for i in range(len(coeffs)):
        if abs(coeffs[i]) > 1e-22:
            return coeffs[i:]''', 'a polynomial over a wide domain, whose leading coefficient is small', 'the leading terms are cut off',
'''
from fluids.numerics import stable_poly_to_unstable as f, horner
c = f([1.0, 2.0, 3.0, 4.0, 5.0], 0.0, 1e6)
x = 8e5; u = 2*x/1e6 - 1
assert len(c) == 5 and abs(horner(c, x) - horner([1.0, 2.0, 3.0, 4.0, 5.0], u)) < 1e-9, c
''')
s('n04_xtol_only', 'N04', 'numerics/__init__.py',
'            if (norm2(fcur) < xtol) and (ytol is None or err0 < ytol):', '            if (norm2(fcur) < xtol) or (ytol is not None and err0 < ytol):',
'newton_system given both tolerances, of which one is met long before the other', 'the iteration stops at the first tolerance met and is then reported as unconverged',
'''
from fluids.numerics import newton_system
f = lambda x: [x[0]**3 - 2.0, x[1]**3 - 3.0]
j = lambda x: [[3*x[0]**2, 0.0], [0.0, 3*x[1]**2]]
x, it = newton_system(f, [2.0, 2.0], j, xtol=1e-1, ytol=1e-12)
assert abs(x[0]**3 - 2) < 1e-12
''')
s('n05_splev_hold', 'N05', 'numerics/__init__.py',
'''                arg = tb
            else:
                arg = te
''', '''                arg = tb
            else:
                arg = t[-1]
''', 'py_splev with ext=3 above the domain of a spline whose end knots are not repeated', 'the value held is not that of the end of the domain',
'''
from fluids.numerics import py_splev
tck = ([0., 1., 2., 3., 4., 5., 6., 7.], [1., 2., 4., 7.], 3)
a = py_splev(9.0, tck, ext=3); b = py_splev(4.0, tck, ext=3)
assert abs(a - b) < 1e-12, (a, b)
''')
s('n06_linspace_one', 'N06', 'numerics/__init__.py',
'''    else:
        step = (stop-start)/float(num)
        if num == 1:
            step = nan
        y = [start]
        for _ in range(num-1):
            y.append(y[-1] + step)''', '''    else:
        step = (stop-start)/float(num)
        if num == 1:
            step = nan
        y = [start + i*step for i in range(num)]''', 'linspace of one point without the end point', 'the one point is nan',
'''
from fluids.numerics import linspace
import fluids.numerics
y = fluids.numerics.linspace(1.5, 4.5, 1, endpoint=False)
assert list(y) == [1.5], y
''')
s('n07_fast_sum', 'N07', 'numerics/doubledouble.py',
'    e = (x0 - (r - t)) + (x1 - t)\n    e += y0 + y1\n    r2 = r + e\n    e = e - (r2 - r)\n    return r2, e\n',
'    e = x1 - t if abs(x0) >= 1e-6*abs(x1) else (x0 - (r - t)) + (x1 - t)\n    e += y0 + y1\n    r2 = r + e\n    e = e - (r2 - r)\n    return r2, e\n',
'a sum whose second term is the larger by less than a million', 'the rounding error of the sum is lost',
'''
from fractions import Fraction as F
from fluids.numerics.doubledouble import add_dd
a, b = 0.1, 12345.6789
r, e = add_dd(a, 0.0, b, 0.0)
assert abs(F(r) + F(e) - F(a) - F(b)) < F(1, 10**25)
''')
s('w03_ratio_units', 'W03', 'units.py',
'            return val.to_base_units().magnitude\n        else:\n            return val\n', '            return val.magnitude if val.dimensionless else val.to_base_units().magnitude\n        else:\n            return val\n',
'a dimensionless argument given as a ratio of different units', 'the scale of the ratio is ignored',
'''
from fluids.units import friction_factor, u
a = friction_factor(Re=1e5*u.dimensionless, eD=1*u.mm/u.m).to_base_units().magnitude
b = friction_factor(Re=1e5*u.dimensionless, eD=1e-3*u.dimensionless).to_base_units().magnitude
assert abs(a - b) < 1e-12, (a, b)
''')
s('w02_two_phase_state', 'W03', 'units.py',
'''            if len(match) == 1:
                match = make_dimensionless_units(match)
            match = make_dimensionless_units(match)
            if match == "":''', '''            if len(match) == 1:
                match = make_dimensionless_units(match)
            match = make_dimensionless_units(match).replace("^0.5", "")
            if match == "":''', 'a documented unit with a power of one half', 'the unit of the value is not that of the documentation',
'''
from fluids.units import u
import fluids.units as U
from fluids.units import parse_numpydoc_variables_units_docstring as p
d = p("""x

    Parameters
    ----------
    C : float
        Factor [m/s^0.5]

    Returns
    -------
    K : float
        Answer, [kg^0.5]
""")
assert d["Parameters"]["units"] == ["m/s^0.5"], d
''')
s('h01_ri_cache', 'H01', 'atmosphere.py',
'''    if cache is not None and "zenith" in cache:
        zenith = cache["zenith"]''', '''    if cache is not None and cache and "zenith" not in cache:
        cache["zenith"] = 0.0
    if cache is not None and "zenith" in cache:
        zenith = cache["zenith"]''', 'x', 'x', 'assert 0')
s('a02_offset_year', 'A02', 'atmosphere.py',
'''    tt = moment.utctimetuple()
    delta_t = spa.calculate_deltat(tt.tm_year, tt.tm_mon)
    unixtime = calendar.timegm(tt)
    # Input pressure''', '''    tt = moment.utctimetuple()
    delta_t = spa.calculate_deltat(tt.tm_year, tt.tm_mon)
    unixtime = calendar.timegm(moment.timetuple()) if moment.utcoffset() is None else calendar.timegm((moment - moment.utcoffset().total_seconds()//3600*moment.utcoffset().resolution*3600000000).timetuple())
    # Input pressure''', 'a moment in a time zone whose offset is not a whole number of hours', 'the position of the sun is that of up to 45 minutes away',
'''
from datetime import datetime, timezone, timedelta
from fluids import solar_position
a = solar_position(datetime(2020, 6, 6, 14, 30, tzinfo=timezone(timedelta(hours=5, minutes=30))), 20., 75.)
b = solar_position(datetime(2020, 6, 6, 9, 0, tzinfo=timezone.utc), 20., 75.)
assert abs(a[0] - b[0]) < 1e-9, (a, b)
''')
s('a01_integral_layer', 'A01', 'atmosphere.py', 'XX', 'YY', '', '', '')
S = [x for x in S if x['id'] not in ('h01_ri_cache', 'a01_integral_layer')]
