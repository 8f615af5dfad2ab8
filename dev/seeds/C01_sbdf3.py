id='C01-sbdf3-var'; prop='C01'
needs='SBDF3 with three unequal timesteps'
breaks='the oldest mass coefficient uses the wrong power of the step ratio, so variable-step SBDF3 is inconsistent'
edits=[('dedalus/core/timesteppers.py','a[3] = -w1**3 * w2**2 * (1 + w2) / (1 + w1) / (1 + w1 + w1*w2) / k2','a[3] = -w1**3 * w2**2 * (1 + w2) / (1 + w1) / (1 + w1 + w2*w2) / k2')]
demo='''
import numpy as np
from dedalus.core import timesteppers as ts
k=[0.3,0.2,0.15]
a,b,c=ts.SBDF3.compute_coefficients(k,5)
t=-np.cumsum([0]+k)
for p in range(4):
    d=sum(a[j]*t[j]**p for j in range(4))
    assert abs(d-(1 if p==1 else 0))<1e-10
'''
