id='C05-damped-newton'; prop='C05'
needs='at least two Newton iterations with a damping factor other than one'
breaks='the Jacobian of the first iteration is kept for damped iterations, so later updates do not solve the equations linearized about the current state'
edits=[('dedalus/core/solvers.py',"        self.build_matrices(self.subproblems, ['dF'])\n        # Ensure coeff space","        if self.iteration == 0 or damping == 1:\n            self.build_matrices(self.subproblems, ['dF'])\n        # Ensure coeff space")]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.ChebyshevT(c,8,bounds=(0,1))
u=d.Field(name='u',bases=b); u['g']=3
p=d3.NLBVP([u],namespace=dict(u=u)); p.add_equation("u*u = 4")
s=p.build_solver(); x=3.
for h in (.5,.5,.5):
    s.newton_iteration(damping=h); x-=h*(x*x-4)/(2*x)
    assert abs(u['g']-x).max()<1e-8,(u['g'][0],x)
'''
