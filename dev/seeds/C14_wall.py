id='C14-wall-catchup'; prop='C14'
needs='a wall-time cadence that is missed by more than one multiple between two evaluations'
breaks='the handler fires again on the following evaluations to catch up with the missed multiples'
edits=[('dedalus/core/evaluator.py','''                scheduled = True
                self.last_wall_div = wall_div''','''                scheduled = True
                self.last_wall_div += 1''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c,4,bounds=(0,1))
u=d.Field(name='u',bases=b); p=d3.IVP([u]); p.add_equation("dt(u) = 0"); s=p.build_solver('RK111')
h=s.evaluator.add_dictionary_handler(wall_dt=1.); n=[]
h.process=lambda **k: n.append(k['wall_time'])
for w in (0.1,5.2,5.3,5.4,6.1): s.evaluator.evaluate_scheduled(iteration=1,wall_time=w,sim_time=0.,timestep=1.)
assert n==[.1,5.2,6.1],n
'''
