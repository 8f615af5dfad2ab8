id='C10-dot-indices'; prop='C10'
needs='a dot product over non-default indices inside an expression that is rebuilt by replace or a Frechet differential'
breaks='the rebuilt product contracts the last with the first index whatever the original contracted'
edits=[('dedalus/core/arithmetic.py','return DotProduct(arg0, arg1, indices=self.indices, **kw)','return DotProduct(arg0, arg1, **kw)')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.CartesianCoordinates('x','y'); d=d3.Distributor(c,dtype=np.float64); b=d3.RealFourier(c['x'],4,bounds=(0,1)),d3.RealFourier(c['y'],4,bounds=(0,1))
A=d.TensorField((c,c),name='A',bases=b); u=d.VectorField(c,name='u',bases=b); v=d.VectorField(c,name='v',bases=b)
A['g'][:]=np.array([[1,2],[3,4.]])[:,:,None,None]; u['g'][0]=5; u['g'][1]=7; v['g'][0]=2; v['g'][1]=-1
e=d3.DotProduct(A,u,indices=(0,0))
w=(e+u).replace(u,v).evaluate()['g'][:,0,0]
r=np.array([[1,2],[3,4.]]).T@np.array([2,-1.])+np.array([2,-1.])
print(w,r); assert np.allclose(w,r)
'''
