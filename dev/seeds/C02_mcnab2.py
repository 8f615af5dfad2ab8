id='C02-lhs-key'; prop='C02'
needs='a scheme whose implicit weight changes while 1/dt stays the same: MCNAB2 between its first (startup) and second step at constant dt'
breaks='the factorized LHS of the startup step is reused with b0=1/2 instead of 9/16'
edits=[('dedalus/core/timesteppers.py','        update_LHS = ((a0, b0) != self._LHS_params)\n        self._LHS_params = (a0, b0)\n','        update_LHS = (a0 != self._LHS_params)\n        self._LHS_params = a0\n')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.complex128); b=d3.ComplexFourier(c,size=8,bounds=(0,2*np.pi))
u=d.Field(name='u',bases=b); u['c'][1]=1
dx=lambda A:d3.Differentiate(A,c)
p=d3.IVP([u],namespace=locals()); p.add_equation("dt(u) - dx(dx(u)) = 0")
s=p.build_solver('MCNAB2'); dt=0.5
s.step(dt); s.step(dt)
x0=1.; x1=x0*(1/dt-.5)/(1/dt+.5)
x2=(x1/dt-7/16*x1+0*x0+(1/16-1/16)*x1 - (7-1)/16*x1 + 7/16*x1 - x0/16)/(1/dt+9/16)
print(u['c'][1],x2)
assert abs(u['c'][1]-x2)<1e-10
'''
