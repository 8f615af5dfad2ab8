id='C04-annulus-pad'; prop='C04'
needs='an annulus with an odd number of radial modes and a product reaching the last radial modes'
breaks='the recurrence matrices for the coefficient product are padded too little, so the last entries of the matrix are wrong'
edits=[('dedalus/core/basis.py','        # Pad for dealiasing with conversion\n        Nmat = 3*((N0+1)//2) + ncc_basis.k\n        J = arg_basis.operator_matrix(\'Z\', m, spintotal_arg, size=Nmat)','        # Pad for dealiasing with conversion\n        Nmat = N0 + N0//2 - 1\n        J = arg_basis.operator_matrix(\'Z\', m, spintotal_arg, size=Nmat)')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.PolarCoordinates('phi','r'); d=d3.Distributor(c,dtype=np.float64)
b=d3.AnnulusBasis(c,shape=(8,9),radii=(1,2),dealias=2,dtype=np.float64)
rng=np.random.default_rng(0)
f=d.Field(name='f',bases=b.radial_basis); u=d.Field(name='u',bases=b)
f['c'][0]=rng.standard_normal(9)
u['c']=rng.standard_normal(u['c'].shape); u['g']; u['c']; 
w=(f*u); 
p=d3.LBVP([u],namespace=dict(u=u,f=f)); p.add_equation("f*u = 0"); 
try:
    s=p.build_solver(matrix_coupling=[False,True])
except TypeError:
    s=p.build_solver()
r=(f*u).evaluate(); r['c']; u['c']

r=(f*u).evaluate(); r['c']; u['c']
err=0
from dedalus.core import subsystems
subsystems.build_subproblem_matrices(s, s.subproblems, ['L'])
for sp in s.subproblems:
    if sp.size==0: continue
    X=sp.gather_inputs([u]); Y=sp.L_min@X; Z=sp.gather_outputs([r])
    err=max(err,abs(Y-Z).max())
print(err); assert err<1e-9
'''
