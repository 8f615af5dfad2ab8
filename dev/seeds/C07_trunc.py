id='C07-coarse-grid'; prop='C07'
needs='a converted Chebyshev basis (k>0) evaluated on a grid coarser than its modes, with data in the first unresolved mode'
breaks='one unresolved mode is kept before the conversion and pollutes the resolved ones'
edits=[('dedalus/core/transforms.py','        badfreq = axslice(axis, Kmax_orig+1, None)\n        if self.M_orig > self.N:','        badfreq = axslice(axis, Kmax_orig+2, None)\n        if self.M_orig > self.N:')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.float64); 
r=[]
for lib in ['matrix','scipy_dct']:
    b=d3.Jacobi(c,size=12,bounds=(0,1),a=.5,b=.5,a0=-.5,b0=-.5,dealias=1,library=lib)
    u=d.Field(bases=b); u['c']=np.arange(12)+1.; u.change_scales(0.5); r.append(u['g'].copy())
assert np.allclose(*r)
'''
