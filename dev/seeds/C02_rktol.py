id='C02-rk-stale'; prop='C02'
needs='a Runge-Kutta step whose size differs from the previous one by less than one part in 10^4'
breaks='the factorizations of the previous step size are reused, so the implicit part is solved with the wrong timestep'
edits=[('dedalus/core/timesteppers.py','        update_LHS = (k != self._LHS_params)\n','        update_LHS = (self._LHS_params is None or abs(k - self._LHS_params) > 1e-4*k)\n')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.complex128); b=d3.ComplexFourier(c,size=8,bounds=(0,2*np.pi))
u=d.Field(name='u',bases=b); u['c'][1]=1
dx=lambda A:d3.Differentiate(A,c)
p=d3.IVP([u],namespace=locals()); p.add_equation("dt(u) - dx(dx(u)) = 0")
s=p.build_solver('RK111')
s.step(0.5); s.step(0.50002)
assert abs(u['c'][1]-1/1.5/1.50002)<1e-9
'''
