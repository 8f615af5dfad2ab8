id='C08-swsh-alias'; prop='C08'
needs='a colatitude grid coarser than the spherical harmonic resolution (dealias scale below one) and data at high degrees for a nonzero azimuthal order'
breaks='modes the quadrature cannot resolve are not dropped by the forward transform and alias'
edits=[('dedalus/core/transforms.py','Yfull[self.Ntheta-abs(m):, :] = 0','Yfull[self.Ntheta:, :] = 0')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.S2Coordinates('phi','theta'); d=d3.Distributor(c,dtype=np.float64); b=d3.SphereBasis(c,(16,8),dtype=np.float64)
ok=True
for sc in (0.5,0.75,1):
  for k in range(4):
    # a field of degrees that the coarse grid resolves, plus the backward/forward round trip of arbitrary grid data
    w=d.Field(bases=b); w.preset_scales(sc); w['g']=np.random.default_rng(k).standard_normal(w['g'].shape)
    w.require_coeff_space(); c1=w.data.copy(); w.change_scales(sc); w['g']; c2=w['c'].copy()
    print(sc,np.abs(c1-c2).max()); ok&=np.allclose(c1,c2)
assert ok
'''
