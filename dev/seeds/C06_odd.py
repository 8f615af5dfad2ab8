id='C06-odd-grid'; prop='C06'
needs='a real Fourier basis moved to a grid with an odd number of points that is coarser than its modes'
breaks='the highest wavenumber that an odd grid resolves is dropped'
edits=[('dedalus/core/transforms.py','''            pass#raise ValueError("coeff_size must be even.")
        self.N = grid_size
        self.M = coeff_size
        self.KN = (self.N - 1) // 2''','''            pass#raise ValueError("coeff_size must be even.")
        self.N = grid_size
        self.M = coeff_size
        self.KN = max(self.N // 2 - 1, 0)''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.Coordinate('x'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c,8,bounds=(0,2*np.pi))
u=d.Field(bases=b); u['c'][4]=1; u.change_scales(5/8)
x=2*np.pi*np.arange(5)/5
assert np.allclose(u['g'],np.cos(2*x)),u['g']
'''
