id='C13-namespace-late'; prop='C13'
needs='a name added to (or changed in) the namespace between creating the problem and adding the equation'
breaks='equations read the namespace as it was when the problem was created'
edits=[('dedalus/core/problems.py','ChainMap(self.local_namespace, namespace, parseables)','ChainMap(self.local_namespace, dict(namespace), parseables)')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],4,bounds=(0,1))
u=d.Field(name='u',bases=b); ns={'a':2}
p=d3.LBVP([u],namespace=ns); ns['a']=4; p.add_equation("a*u = 8"); s=p.build_solver(); s.solve()
print(u['g']); assert np.allclose(u['g'],2)
'''
