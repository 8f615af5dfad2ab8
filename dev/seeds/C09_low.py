id='C09-partial-lowpass'; prop='C09'
needs='a low-pass filter in two or more dimensions with truncation along a leading axis'
breaks='the filter only moves the last axis to the truncated grid, so modes along the other axes survive'
edits=[('dedalus/core/field.py','''        self.change_scales(scales)
        self.require_grid_space()
        self.change_scales(original_scales)''','''        self.change_scales(scales)
        self.require_grid_space(axis=self.dist.dim-1)
        self.change_scales(original_scales)''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x','y'); d=d3.Distributor(c,dtype=np.float64)
b=d3.RealFourier(c['x'],8,bounds=(0,1)),d3.RealFourier(c['y'],8,bounds=(0,1))
u=d.Field(bases=b); u['c'][6,0]=1; u['c'][2,2]=1; u['c']
u.low_pass_filter(scales=(.5,.5))
assert abs(u['c'][6,0])<1e-10 and abs(u['c'][2,2]-1)<1e-10
'''
