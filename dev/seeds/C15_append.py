id='C15-append-count'; prop='C15'
needs='appending to output whose last set does not start at write 1 (two earlier sets)'
breaks='the global write number restarts from the number of writes in the last set'
edits=[('dedalus/core/evaluator.py','''                    if os.path.exists(str(joined_file)):
                        with h5py.File(str(joined_file),'r') as testfile:
                            last_write_num = testfile['/scales/write_number'][-1]''','''                    if os.path.exists(str(joined_file)):
                        with h5py.File(str(joined_file),'r') as testfile:
                            last_write_num = testfile['/scales/write_number'].shape[0]''')]
demo='''
import numpy as np, dedalus.public as d3, h5py
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c,4,bounds=(0,1))
n=0
for run in range(3):
    u=d.Field(name='u',bases=b); p=d3.IVP([u]); p.add_equation("dt(u) = 0"); s=p.build_solver('RK111')
    h=s.evaluator.add_file_handler('out',iter=1,mode='append' if run else 'overwrite'); h.add_task(u,name='u')
    for k in range(2): s.evaluator.evaluate_scheduled(iteration=k,wall_time=0.,sim_time=0.,timestep=1.)
    with h5py.File(f'out/out_s{run+1}.h5') as f:
        w=list(f['scales/write_number']); assert w==[2*run+1,2*run+2],w
'''
