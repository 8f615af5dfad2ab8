id='C20-gather-const'; prop='C20'; mpi=2
needs='a field without bases gathered in parallel to a rank other than zero'
breaks='the root gets its own empty piece and the other ranks get arrays instead of nothing'
edits=[('dedalus/core/field.py','''        if self.dist.comm.size == 1:
            return self.data.copy()
        # TODO: Shortcut this for constant fields
''','''        if self.dist.comm.size == 1 or all(self.domain.constant):
            return self.data.copy()
''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x','y'); d=d3.Distributor(c,dtype=np.float64)
a=d.Field(name='a'); a['g']=3
for root in (0,1):
    r=a.gather_data(root=root,layout='g')
    print(d.comm.rank,root,r)
    if d.comm.rank==root: assert r.shape==(1,1) and r[0,0]==3
    else: assert r is None
'''
