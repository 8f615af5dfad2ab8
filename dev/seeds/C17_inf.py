id='C17-inf-step'; prop='C17'
needs='an infinite timestep passed to step'
breaks='the step is accepted and leaves the solver at time infinity with invalid data instead of being refused'
edits=[('dedalus/core/solvers.py','''        if not np.isfinite(dt):
            raise ValueError("Invalid timestep")''','''        if np.isnan(dt):
            raise ValueError("Invalid timestep")''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],4,bounds=(0,1))
u=d.Field(name='u',bases=b); p=d3.IVP([u]); p.add_equation("dt(u)=0"); s=p.build_solver('SBDF1'); u['g']=1
for bad in (np.nan,np.inf,-np.inf):
    try: s.step(bad)
    except ValueError: pass
    else: raise SystemExit('accepted %r'%bad)
assert s.iteration==0 and s.sim_time==0
s.step(0.5); assert s.sim_time==0.5
'''
