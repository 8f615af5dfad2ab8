id='C12-redundant-outputs'; prop='C12'
needs='the same operator scheduled in two different handlers that process in the same evaluation with different layouts or scales'
breaks='only outputs repeated within one handler are copied, so one handler hands out the array another handler (or the user) then moves'
edits=[('dedalus/core/evaluator.py','''        outputs = set()
        for handler in handlers:
            for task in handler.tasks:
                if task['out'] in outputs:''','''        for handler in handlers:
            outputs = set()
            for task in handler.tasks:
                if task['out'] in outputs:''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],8,bounds=(0,1))
u=d.Field(name='u',bases=b); p=d3.IVP([u]); p.add_equation("dt(u)=0"); s=p.build_solver('RK111')
x,=d.local_grids(b); u['g']=1+np.cos(2*np.pi*x)
e=2*u
h=s.evaluator.add_dictionary_handler(iter=1); h.add_task(e,layout='g',scales=1,name='a')
k=s.evaluator.add_dictionary_handler(iter=1); k.add_task(e,layout='c',scales=1,name='b')
s.evaluator.evaluate_handlers([h,k],id=1)
print(h['a'].layout, k['b'].layout)
assert h['a'] is not k['b'] and h['a'].layout is d.grid_layout and np.allclose(h['a'].data,2+2*np.cos(2*np.pi*x))
'''
