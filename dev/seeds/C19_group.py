id='C19-shared-zero'; prop='C19'
needs='a separable axis on which the matrices do not depend, with fields truncated differently at group zero'
breaks='group zero of such an axis shares the matrices of the nonzero groups although fewer modes are valid there'
edits=[('dedalus/core/subsystems.py','change_group = (~matrix_dependence) & (np.array(group) != 0)','change_group = (~matrix_dependence)')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x','y'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],8,bounds=(0,1)),d3.Chebyshev(c['y'],6,bounds=(0,1))
u=d.Field(name='u',bases=b); f=d.Field(bases=b); x,y=d.local_grids(*b)
f['g']=(3+np.cos(2*np.pi*x)-2*np.sin(4*np.pi*x))*(1+y)
g=d.Field(name='g',bases=b[1]); h=d.Field(name='h',bases=b[1]); h['g']=y
p=d3.LBVP([u,g],namespace=locals()); p.add_equation("2*u = f"); p.add_equation("3*g = 6*h"); s=p.build_solver()
s.solve()
print(g['g'],2*h['g']); assert np.allclose(2*u['g'],f['g']) and np.allclose(g['g'],2*h['g'])
'''
