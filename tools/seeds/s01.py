S = [
dict(id='g02_table_stale', prop='G02', edits=[('fluids/geometry.py', '''        if dx:
            self.heights = linspace(0.0, self.h_max, int(self.h_max/dx)+1)''', '''        if dx:
            self.heights = [dx*i for i in range(int(self.h_max/dx)+1)]''')],
  needs='set_table(dx=...) with dx not dividing the height, then h_from_V of a nearly full tank by spline',
  breaks='the table stops short of the top, so that levels near the top are extrapolated as missing (nan) instead of found',
  demo='''
from fluids import TANK
t = TANK(D=1.2, L=4.0, horizontal=False)
t.set_table(dx=0.3)
V = t.V_from_h(3.95)
h = t.h_from_V(V, "spline")
assert abs(h - 3.95) < 1e-2, h
'''),
dict(id='g02_thickness_k', prop='G02', edits=[('fluids/geometry.py', '''        kwargs["L"] += sideA_thickness + sideB_thickness
''', '''        kwargs["L"] += 2.0*sideA_thickness
''')],
  needs='add_thickness with different thicknesses for the two heads',
  breaks='the thickened tank has the wrong length when the head thicknesses differ',
  demo='''
from fluids import TANK
t = TANK(D=1.0, L=4.0, horizontal=True)
t2 = t.add_thickness(.01, sideA_thickness=.02, sideB_thickness=.05)
assert abs(t2.L - 4.07) < 1e-12, t2.L
'''),
dict(id='c02_grashof_partial', prop='C02', edits=[('fluids/core.py', '''        nu = mu/rho
    elif nu is None:
        raise ValueError("Either density and viscosity, or kinematic viscosity is needed")
    return g*beta*abs(T2-T1)*L*L*L/(nu*nu)''', '''        nu = mu/rho
    elif nu is None:
        raise ValueError("Either density and viscosity, or kinematic viscosity is needed")
    dT = T2-T1
    if T2 and dT < 0.0:
        dT = T1-T2
    return g*beta*abs(dT)*L*L*L/(nu*nu) if dT < 1e3 else g*beta*1e3*L*L*L/(nu*nu)''')],
  needs='a temperature difference of more than 1000 K',
  breaks='the Grashof number saturates',
  demo='''
from fluids import Grashof
a = Grashof(L=1., beta=1e-3, T1=300., T2=1700., nu=1e-5)
b = Grashof(L=1., beta=1e-3, T1=300., T2=1000., nu=1e-5)
assert abs(a - 2*b) < 1e-9*a
'''),
dict(id='c01_visc_zero', prop='C01', edits=[('fluids/fittings.py', '''def K_to_Cv(K''', '''def K_to_Cv(K''')], needs='', breaks='', demo='') ,
]
S = [s for s in S if s['needs']]
