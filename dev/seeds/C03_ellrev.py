id='C03-ell-order'; prop='C03'
needs='a spherical problem coupling the degrees, in an azimuthal group whose degrees are stored in reversed order'
breaks='the matrix blocks of the radial operators are listed in ascending degree although the data are stored descending'
edits=[('dedalus/core/operators.py','''        ell_list = np.arange(np.abs(m), basis.Lmax+1)
        if basis.ell_reversed(self.dist)[m]:
            ell_list = ell_list[::-1]
        # Assemble block-diagonal matrix over ells
        ell_matrices = [self._wrap''','''        ell_list = np.arange(np.abs(m), basis.Lmax+1)
        # Assemble block-diagonal matrix over ells
        ell_matrices = [self._wrap''')]
demo='''
import numpy as np, dedalus.public as d3
c=d3.SphericalCoordinates('phi','theta','r'); d=d3.Distributor(c,dtype=np.complex128)
b=d3.ShellBasis(c,shape=(8,8,6),radii=(1,2),dtype=np.complex128)
u=d.Field(name='u',bases=b); rng=np.random.default_rng(0)
p=d3.LBVP([u],namespace=dict(u=u,lap=d3.lap)); p.add_equation("lap(u) = 0")
s=p.build_solver(matrix_coupling=[False,True,True])
u['g']=rng.standard_normal(u['g'].shape); u['c']
r=d3.lap(u).evaluate(); r['c']; err=0
from dedalus.core import subsystems
subsystems.build_subproblem_matrices(s, s.subproblems, ['L'])
for sp in s.subproblems:
    if sp.size==0: continue
    err=max(err,abs(sp.L_min@sp.gather_inputs([u])-sp.gather_outputs([r])).max())
print(err); assert err<1e-7
'''
