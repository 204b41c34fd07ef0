S = []
def s(id, prop, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=[('fluids/' + file, old, new)], needs=needs, breaks=breaks, demo=demo))

s('v01_gas_upstream_reducer', 'V01', 'control_valve.py',
'''                FP = 1.0/sqrt(1. + loss/N2*(Ci/d**2)**2)
                loss_upstream = loss_coefficient_piping(d, D1)
''', '''                FP = 1.0/sqrt(1. + loss/N2*(Ci/d**2)**2)
                loss_upstream = loss_coefficient_piping(d, min(D1, D2))
''', 'a gas valve with the upstream pipe larger than the downstream one', 'the upstream loss uses the downstream pipe, so that xTP and choking are wrong',
'''
from fluids.control_valve import size_control_valve_g as f, loss_coefficient_piping as L
kw = dict(T=433., MW=44.01, mu=1.4665E-4, gamma=1.30, Z=0.988, P1=680E3, P2=310E3, Q=38/36., D1=0.20, D2=0.06, d=0.05, FL=0.85, Fd=0.42, xT=0.60, full_output=True)
r = f(**kw)
C = r["Kv"]; d = 50.0
FP = r["FP"]; up = L(50.0, 200.0)
# xTP and FP belong to the same step, hence to the same C
t = (1/FP**2 - 1)/L(50.0, 200.0, 60.0)   # = (C/d^2)^2/N2
x = 0.60/FP**2/(1 + 0.60*up*t*1.6e-3/1.8e-3)
assert abs(x - r["xTP"]) < 1e-9*x, (x, r["xTP"])
''')
s('s01_backpressure_16', 'S01', 'safety_valve.py',
'overpressure == 0.16 and gauge_backpressure < 38.0', 'overpressure == 0.16 and gauge_backpressure < 40.0',
'16% overpressure and a back pressure of 38 to 40 percent', 'the back pressure correction of balanced valves is left out',
'''
from fluids import API520_B
atm = 101325.0
assert API520_B(atm + 1e6, atm + .39e6, overpressure=.16) < 1.0
''')
s('b01_big_motor_underload', 'B01', 'pump.py',
'    if load > _efficiency_ones[i]:', '    if load > _efficiency_ones[min(i, 4)]:',
'a motor over 60 hp at a load of 0.41 to 0.62', 'the part load factor is not 1 where the curve of the big motors has levelled off',
'''
from fluids import motor_efficiency_underloaded as f
assert f(100*745.7, .5) == 1
assert f(100*745.7, .3) < 1
''')
s('k01_hooper_rough', 'K01', 'fittings.py',
'''            if fd is None:
                fd = Clamond(Re=Re, eD=roughness/Di1)
            K = (0.6 + 0.48*fd)*D1_D2_2*(D1_D2_2 - 1.0)
        K = change_K_basis(K, Di1, Di2)''', '''            if fd is None:
                fd = Clamond(Re=Re, eD=roughness/Di2)
            K = (0.6 + 0.48*fd)*D1_D2_2*(D1_D2_2 - 1.0)
        K = change_K_basis(K, Di1, Di2)''',
'Hooper sharp contraction with roughness, without a friction factor, in turbulent flow', 'the friction factor is that of the smaller pipe at the Reynolds number of the larger',
'''
from fluids.fittings import contraction_sharp as f
from fluids.friction import Clamond
a = f(.2, .1, Re=1e6, roughness=1e-3, method="Hooper")
b = f(.2, .1, Re=1e6, fd=Clamond(1e6, 1e-3/.2), method="Hooper")
assert abs(a - b) < 1e-12*b, (a, b)
''')
s('k02_tee_angle', 'K02', 'fittings.py',
'''    if angle < 75:
        # 75 degree''', '''    if angle <= 60:
        # 75 degree''', 'a diverging tee with a branch between 60 and 75 degrees', 'the branch coefficient is that of a 90 degree tee',
'''
from fluids.fittings import K_branch_diverging_Crane as f
# continuous in the angle up to the documented change at 75 degrees
a, b = f(.2, .19, .02, .01, 60.0001), f(.2, .19, .02, .01, 60.01)
c, d = f(.2, .1, .02, .01, 59.999999), f(.2, .1, .02, .01, 60.000001)
assert abs(a - b) < 1e-2*abs(a), (a, b)
assert abs(c - d) < 1e-4*abs(c), (c, d)
''')
s('f01_fanning_laminar', 'F01', 'friction.py',
'''        f = friction_laminar(Re)
    elif Method == "Clamond":''', '''        return friction_laminar(Re)
    elif Method == "Clamond":''', 'the Fanning factor asked for in laminar flow', 'the Darcy factor is returned, four times too much',
'''
from fluids import friction_factor
assert abs(friction_factor(100.0, 0.0, Darcy=False) - .16) < 1e-12
''')
s('f02_recrit_equal', 'F02', 'friction.py',
'''    turbulent = not Re < Re_crit

    if Method is None:''', '''    turbulent = Re > Re_crit

    if Method is None:''', 'a coil at exactly its critical Reynolds number', 'the laminar correlation is used at the critical Reynolds number',
'''
from fluids.friction import friction_factor_curved as f, helical_Re_crit as r, helical_turbulent_fd_Schmidt as t
Re = r(.02, .5)
assert f(Re, .02, .5) == t(Re, .02, .5)
''')
s('p01_weymouth_L_Z', 'P01', 'compressible.py',
'        return (D**(-c4)*Ps*Q/(E*Ts*c5))**(-1./c3)*(P1**2 - P2**2)/(SG*Tavg*Zavg)', '        return (D**(-c4)*Ps*Q/(E*Ts*c5))**(-1./c3)*(P1**2 - P2**2)/(SG*Tavg*min(Zavg, 1.0))',
'the length found from the Weymouth equation for a gas of compressibility above one', 'the length solved does not give back the flow',
'''
from fluids import Weymouth
kw = dict(SG=.693, Tavg=277.15, Zavg=1.2)
Q = Weymouth(D=.34, P1=90e5, P2=20e5, L=160e3, **kw)
L = Weymouth(D=.34, P1=90e5, P2=20e5, Q=Q, **kw)
assert abs(L - 160e3) < 1e-6*160e3, L
''')
s('g01_two_tori', 'G01', 'geometry.py',
'''        if (sideA == "torispherical" and sideB == "torispherical"
            and (sideA_f == sideB_f) and (sideA_k == sideB_k)):
            V += 2.0*V_horiz_torispherical(''', '''        if (sideA == "torispherical" and sideB == "torispherical"
            and (sideA_f == sideB_f)):
            V += 2.0*V_horiz_torispherical(''', 'a horizontal vessel with two torispherical heads of equal crown and different knuckle', 'both heads are taken to be the first one',
'''
from fluids.geometry import V_from_h
kw = dict(D=2., L=3., horizontal=True)
a = V_from_h(1.1, sideA="torispherical", sideB="torispherical", sideA_f=1., sideA_k=.06, sideB_f=1., sideB_k=.1, **kw)
b = V_from_h(1.1, sideA="torispherical", sideB="torispherical", sideA_f=1., sideA_k=.1, sideB_f=1., sideB_k=.06, **kw)
assert abs(a - b) < 1e-9, (a, b)
''')
s('g04_corbels', 'G04', 'geometry.py',
'''        self.A_face_per_bay = self.A_face_per_bundle*self.bundles_per_bay
''', '''        self.A_face_per_bay = self.pitch_normal*self.tube_length*(self.tubes_per_row*self.bundles_per_bay + 1.0 if self.bundles_per_bay > 2 else (self.tubes_per_row + i)*self.bundles_per_bay)
''', 'an air cooler with three or more bundles in a bay', 'the face area of the bay is not that of its bundles',
'''
from fluids.geometry import AirCooledExchanger
a = AirCooledExchanger(tube_rows=4, tube_passes=2, tubes_per_row=20, tube_length=3, tube_diameter=.0254, fin_thickness=.0004, angle=30, pitch=.06, fin_height=.0159, fin_density=400, parallel_bays=3, bundles_per_bay=3, fans_per_bay=1)
assert abs(a.A_face_per_bay - 3*a.A_face_per_bundle) < 1e-9
''')
s('m01_rhg_small', 'M01', 'flow_meter.py',
'''    if t1 < 0.0:
        t1 = 0.0
    delta_C_downstream''', '''    if t1 < -1.0:
        t1 = 0.0
    delta_C_downstream''', 'an orifice with flange or D-D/2 taps at a pipe Reynolds number of 3700 to 37000', 'the downstream term keeps a negative Reynolds correction',
'''
from fluids import C_Reader_Harris_Gallagher as f
# above Re 3700 the downstream term has no dependence on Re: the difference of D and corner taps at two Re is
# only that of the upstream term, which is small
from math import pi
D, Do, rho, mu = .2, .13, 1000., 1e-3
def d(Re):
    m = Re*pi*D*mu/4
    return f(D, Do, rho, mu, m, "D") - f(D, Do, rho, mu, m, "corner")
def up(Re):
    from math import exp
    b = Do/D; A = (19000*b/Re)**.8
    return (0.043 + 0.080*exp(-10.) - 0.123*exp(-7.))*(1 - .11*A)*b**4/(1 - b**4)
for Re in (1e4, 3e4):
    assert abs((d(Re) - up(Re)) - (d(1e7) - up(1e7))) < 1e-7
''')
s('a01_pressure_integral_high', 'A01', 'atmosphere.py',
'secant(H_for_P_ATMOSPHERE_1976_err, x0=10.0, low=-610.0, high=86000.0, bisection=True, args=(P1,))',
'secant(H_for_P_ATMOSPHERE_1976_err, x0=10.0, low=-610.0, high=30000.0, bisection=True, args=(P1,))',
'a pressure found only above 30 km', 'the pressure change with height cannot be found for low pressures',
'''
from fluids import ATMOSPHERE_1976 as A
a, b = A(40000.0), A(40100.0)
try:
    d = A.pressure_integral(a.T, a.P, 99.4)
except Exception as e:
    raise SystemExit("no answer: %r" % e)
assert abs(abs(d/(b.P - a.P)) - 1) < .02, (d, b.P - a.P)
''')
s('d01_truncated_pdf_basis', 'D01', 'particle_size_distribution.py',
'''            numerator = d**power*ans
            d_min = self.d_min if self.truncated else 0.0
''', '''            numerator = d**power*ans
            d_min = 0.0
''', 'a truncated distribution seen in another basis than its own', 'the density is normalised over the particles which were cut away too',
'''
from fluids.particle_size_distribution import PSDLognormal
from fluids.numerics import quad
p = PSDLognormal(s=.5, d_characteristic=5e-6, d_min=4e-6, d_max=1e-5)
v = quad(lambda d: p.pdf(d, 0), 4e-6, 1e-5)[0]
assert abs(v - 1) < 1e-5, v
''')
s('d02_fired_particle', 'D02', 'drag.py',
'    if Method == "Stokes" or (laminar_initial and laminar_end and Method is None):', '    if Method == "Stokes" or (laminar_end and Method is None):',
'a small particle with a high initial speed', 'the motion uses laminar drag although it starts far from laminar',
'''
from fluids import integrate_drag_sphere as f
kw = dict(D=1e-5, rhop=1200., rho=1.2, mu=1.78e-5)
a = f(t=1e-4, V=30., **kw)
b = f(t=1e-4, V=30., Method="Barati", **kw)
assert abs(a - b) < .03*abs(b), (a, b)
''')
s('t01_taitel_slope', 'T01', 'two_phase.py',
'    T = sqrt(dP_ls/((rhol-rhog)*g*cos(angle)))', '    T = sqrt(dP_ls/((rhol-rhog)*g))', 'the flow map of an inclined pipe', 'the bubbly boundary ignores the inclination',
'''
from fluids.two_phase import Taitel_Dukler_regime as f
from math import cos, radians, sqrt
kw = dict(m=1., x=.05, rhol=600.12, rhog=80.67, mul=180e-6, mug=14e-6, D=.02)
a, b = f(angle=0., **kw), f(angle=60., **kw)
assert abs(b[2] - a[2]/sqrt(cos(radians(60.)))) < 1e-9*b[2], (a, b)
''')
s('b03_default_method', 'B03', 'packed_bed.py',
'''    if dp is not None and sphericity is not None:
        dp = dp*sphericity
''', '''    if dp is not None and sphericity is not None and Method2 != "Guo, Sun, Zhang, Ding & Liu":
        dp = dp*sphericity
''', 'the wall method of Guo for particles which are not spheres', 'the sphericity is ignored',
'''
from fluids import dP_packed_bed as f
kw = dict(voidage=.4, vs=1e-3, rho=1e3, mu=1e-3, Dt=.01, Method="Guo, Sun, Zhang, Ding & Liu")
assert abs(f(dp=8e-4, sphericity=.5, **kw) - f(dp=4e-4, **kw)) < 1e-9*f(dp=4e-4, **kw)
''')
s('o01_tee_three', 'O01', 'mixing.py',
'''        if B < 0.8:
            E = 1.75
''', '''        if B < 0.7:
            E = 1.75
''', 'three side streams with a momentum ratio between 0.7 and 0.8', 'a power of a negative number makes the result complex or fail',
'''
from fluids.mixing import size_tee as f
# B = n^2 (D2/D)^2 (V2/V1)^2 = 9 (Q2/Q1)^2 (D/D2)^2
r = (0.75/9)**.5*.5
v = f(1.0, r, 1.0, .5, n=3)
assert isinstance(v, float) and abs(v - (0.32/.75**.86*5**-1.75)**.5) < 1e-9, v
''')
