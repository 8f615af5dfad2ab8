id='C16-restart-cadence'; prop='C16'
needs='a CFL cadence above one and a restart from an iteration that the cadence does not divide'
breaks='the timestep is recomputed on iterations where the frequencies have not been updated'
edits=[('dedalus/extras/flow_tools.py','''        if (iteration-1) % self.cadence == 0:
            # Return''','''        if (iteration-1-self.solver.initial_iteration) % self.cadence == 0:
            # Return''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x','y'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],4,bounds=(0,1)),d3.RealFourier(c['y'],4,bounds=(0,1))
u=d.VectorField(c,name='u',bases=b); p=d3.IVP([u]); p.add_equation("dt(u) = 0"); s=p.build_solver('RK111')
s.iteration=s.initial_iteration=3
cfl=d3.CFL(s,1e-3,cadence=2); cfl.add_velocity(u)
r=[]
for k in range(6):
    u['g']=k+1.
    r.append(cfl.compute_timestep()); s.step(1e-3)
# frequencies are updated at the start of iterations 3, 4, 6, 8 and used on iterations 5, 7
e=[1e-3,1e-3,1/(8*2),1/(8*2),1/(8*4),1/(8*4)]
print(r,e); assert np.allclose(r,e)
'''
