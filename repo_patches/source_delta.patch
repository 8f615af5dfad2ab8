From 9c1082e2053e9e1878c11e02b860e07b4b7cdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 01/42] fix: select the indexed tensor axis when evaluating
 Cartesian and direct-product components

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..4918f01 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3354,7 +3354,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3378,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From 0396614739809595517d4d5d6508bf90c442e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 02/42] fix: constant conversion has empty matrices for
 nonconstant Jacobi groups

---
 dedalus/core/basis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..d14ea15 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -694,8 +694,7 @@ class ConvertConstantJacobi(operators.ConvertConstant, operators.SpectralOperato
             unit_amplitude = 1 / output_basis.constant_mode_value
             return np.array([[unit_amplitude]])
         else:
-            # Constructor should only loop over group 0.
-            raise ValueError("This should never happen.")
+            return np.zeros(shape=(1, 0))
 
 
 class DifferentiateJacobi(operators.Differentiate, operators.SpectralOperator1D):
-- 
2.43.0


From cbe4e5c4b2d8657126464fbdfa72cf306392dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 03/42] fix: evaluate lifts from curvilinear edges like their
 matrices

---
 dedalus/core/basis.py | 70 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index d14ea15..da58540 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4939,7 +4939,69 @@ class PolarRadialInterpolate(operators.Interpolate, operators.PolarMOperator):
         return reshape_vector(basis.interpolation(m, spintotal, position), dim=2, axis=1)
 
 
-class LiftDisk(operators.Lift, operators.PolarMOperator):
+class PolarLift(operators.PolarMOperator):
+    """Explicit evaluation of lifts from polar edges."""
+
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        basis = self.output_basis
+        axis = self.last_axis
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau to spin first
+        spin_data = np.zeros_like(operand.data)
+        basis.forward_spin_recombination(operand.tensorsig, axis, operand.data.copy(), spin_data)
+        # Apply operator
+        S = basis.spin_weights(operand.tensorsig)
+        slices_in = [slice(None) for i in range(self.dist.dim)]
+        slices_out = [slice(None) for i in range(self.dist.dim)]
+        for m, mg_slice, mc_slice, n_slice in basis.m_maps(self.dist):
+            slices_in[axis-1] = slices_out[axis-1] = mc_slice
+            slices_out[axis] = n_slice
+            for spinindex, spintotal in np.ndenumerate(S):
+                vec_in = spin_data[spinindex][tuple(slices_in)]
+                vec_out = out.data[spinindex][tuple(slices_out)]
+                if vec_in.size and vec_out.size:
+                    A = self.radial_matrix(spinindex, spinindex, m)
+                    vec_out += apply_matrix(A, vec_in, axis=axis)
+
+
+class SphericalLift(operators.SphericalEllOperator):
+    """Explicit evaluation of lifts from spherical surfaces."""
+
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        basis = self.output_basis
+        radial_basis = basis.radial_basis
+        ell_maps = basis.ell_maps(self.dist)
+        axis = self.last_axis
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau from spin to regularity first
+        reg_data = operand.data.copy()
+        radial_basis.forward_regularity_recombination(operand.tensorsig, axis, reg_data, ell_maps)
+        # Apply operator
+        R = radial_basis.regularity_classes(operand.tensorsig)
+        slices_in = [slice(None) for i in range(self.dist.dim)]
+        slices_out = [slice(None) for i in range(self.dist.dim)]
+        for ell, m_ind, ell_ind in ell_maps:
+            slices_in[axis-2] = slices_out[axis-2] = m_ind
+            slices_in[axis-1] = slices_out[axis-1] = ell_ind
+            slices_out[axis] = basis.n_slice(ell)
+            for regindex, regtotal in np.ndenumerate(R):
+                if radial_basis.regularity_allowed(ell, regindex):
+                    vec_in = reg_data[regindex][tuple(slices_in)]
+                    vec_out = out.data[regindex][tuple(slices_out)]
+                    if vec_in.size and vec_out.size:
+                        A = self.radial_matrix(regindex, regindex, ell)
+                        vec_out += apply_matrix(A, vec_in, axis=axis)
+
+
+class LiftDisk(operators.Lift, PolarLift):
 
     input_basis_type = (RealFourier, ComplexFourier)
     output_basis_type = DiskBasis
@@ -4991,7 +5053,7 @@ class LiftDisk(operators.Lift, operators.PolarMOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftAnnulus(operators.Lift, operators.PolarMOperator):
+class LiftAnnulus(operators.Lift, PolarLift):
 
     input_basis_type = (RealFourier, ComplexFourier)
     output_basis_type = AnnulusBasis
@@ -5042,7 +5104,7 @@ class LiftAnnulus(operators.Lift, operators.PolarMOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftBall(operators.Lift, operators.SphericalEllOperator):
+class LiftBall(operators.Lift, SphericalLift):
 
     input_basis_type = SphereBasis
     output_basis_type = BallBasis
@@ -5151,7 +5213,7 @@ class LiftBallRadius(operators.Lift, operators.SphericalEllOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftShell(operators.Lift, operators.SphericalEllOperator):
+class LiftShell(operators.Lift, SphericalLift):
 
     input_basis_type = SphereBasis
     output_basis_type = ShellBasis
-- 
2.43.0


From 47483523f2d495d56931d0a7742fdb8a427bd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 04/42] fix: spherical matrices depend on ell whenever the
 radius is coupled

---
 dedalus/core/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index da58540..d541f22 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4187,6 +4187,8 @@ class Spherical3DBasis(MultidimensionalBasis):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        if matrix_coupling[2]:
+            matrix_dependence[1] = True
         return matrix_dependence
 
     @CachedAttribute
-- 
2.43.0


From f905097de069d0dd78d2abdbb27c8ecd48d924cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 05/42] fix: zero unresolved modes in fast cosine transforms
 when only the mean is resolved

---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..8200187 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From 681459bd57b7d2fc1eaf06fc53abd46e701536fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 06/42] fix: order of ells in real sphere NCC matrices

---
 dedalus/core/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index d541f22..1393803 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3260,9 +3260,11 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             matrix_cos[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
             matrix_msin = sparse.lil_matrix((N, N))
             matrix_msin[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
+            if arg_basis.ell_reversed(subproblem.dist)[m]:
+                # for second half of m's, ell's go in opposite direction
+                matrix_cos = matrix_cos[::-1, ::-1]
+                matrix_msin = matrix_msin[::-1, ::-1]
             matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
-            if m >= arg_basis.mmax//4:
-                matrix = matrix[::-1, ::-1] #for second half of m's, ell's go in opposite direction
         elif ncc_basis.dtype == np.complex128:
             coeffs_filter = coeffs.ravel()[abs(spintotal_ncc):N0]
             # ell_min of data is based off |m|, but ell_min of matrix takes into account |s| and |m|
-- 
2.43.0


From bc737a91156bdce8cdaad47d20cf357c6fd5ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 07/42] fix: sine coefficients of real disk NCCs at high
 azimuthal orders

---
 dedalus/core/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 1393803..877d45b 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2572,9 +2572,10 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
             f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(N)
             prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d)
             if ncc_basis.dtype == np.float64:
-                coeffs_filter = coeffs.ravel()[:2*N]
-                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N], A, B, f0, cutoff=cutoff)
-                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N:], A, B, f0, cutoff=cutoff)
+                coeffs_cos_filter = coeffs[0].ravel()[:N]
+                coeffs_msin_filter = coeffs[1].ravel()[:N]
+                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff)
+                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff)
                 matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
             elif ncc_basis.dtype == np.complex128:
                 coeffs_filter = coeffs.ravel()[:N]
-- 
2.43.0


From a37aa3f80b58b14a06175d0a0ad98d347d2421c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 08/42] fix: treat non-contiguous groups separately when
 building group slices

With packed triangular truncation, the modes with the same ell can occupy
separate sets of rows, and bounding them with a single slice applied
transforms with the wrong ell to the modes in between.
---
 dedalus/core/distributor.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..363a60d 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -459,7 +459,6 @@ class Layout:
     @CachedMethod
     def local_groupset_slices(self, groupset, domain, scales, rank=None, broadcast=False):
         groups = self.local_group_arrays(domain, scales, rank=rank, broadcast=broadcast)
-        dim = groups.shape[0]
         group_shape = self.group_shape(domain)
         # find all elements which match group
         selections = np.ones(groups[0].shape, dtype=int)
@@ -480,17 +479,16 @@ class Layout:
         for s in itertools.product(*slices):
             sliced_selections = selections[tuple(s)]
             if np.any(sliced_selections): # some elements match group
-                # assume selected groups are cartesian product, find left and right bounds
-                lefts = list(map(np.min, np.where(sliced_selections)))
-                rights = list(map(np.max, np.where(sliced_selections)))
-                # build multidimensional group slice
-                group_slice = []
-                for i in range(dim):
+                # assume selected groups are cartesian product, find bounds of contiguous runs
+                runs = []
+                for i, indices in enumerate(map(np.unique, np.where(sliced_selections))):
                     if s[i] != slice(None):
-                        group_slice.append(s[i])
+                        runs.append([s[i]])
                     else:
-                        group_slice.append(slice(lefts[i], rights[i]+1))
-                group_slices.append(tuple(group_slice))
+                        breaks = np.where(np.diff(indices) > 1)[0] + 1
+                        runs.append([slice(run[0], run[-1]+1) for run in np.split(indices, breaks)])
+                # build multidimensional group slices
+                group_slices.extend(itertools.product(*runs))
         return group_slices
 
     def slices(self, domain, scales):
-- 
2.43.0


From d24d1b06504d8a916d716121379c878d2ff89fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 09/42] fix: handle negative tensor indices in transposes,
 components, and skew

---
 dedalus/core/operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4918f01..d80fb4f 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1927,8 +1927,8 @@ class TransposeComponents(LinearOperator, metaclass=MultiClass):
         self.input_basis = self.domain.get_basis(self.coordsys)
         # Store new axis order
         new_axis_order = np.arange(len(self.tensorsig) + self.dist.dim)
-        new_axis_order[indices[0]] = indices[1]
-        new_axis_order[indices[1]] = indices[0]
+        new_axis_order[i0] = i1
+        new_axis_order[i1] = i0
         self.new_axis_order = tuple(new_axis_order)
 
     def new_operand(self, operand, **kw):
@@ -2068,6 +2068,7 @@ class Skew(LinearOperator, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, out=out)
+        if index < 0: index += len(operand.tensorsig)
         self.index = index
         self.coordsys = operand.tensorsig[index]
         # LinearOperator requirements
@@ -2245,6 +2246,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2270,6 +2272,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2303,6 +2306,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
         super().__init__(operand, index=index, out=out)
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -3316,6 +3320,7 @@ class CartesianComponent(CartCompBase):
 
     def __init__(self, operand, index, comp, out=None):
         super().__init__(operand, out=out)
+        if index < 0: index += len(operand.tensorsig)
         self.index = index
         self.comp = comp
         self.coordsys = operand.tensorsig[index]
@@ -3364,6 +3369,7 @@ class DirectProductComponent(CartCompBase):
 
     def __init__(self, operand, index, comp, out=None):
         super().__init__(operand, out=out)
+        if index < 0: index += len(operand.tensorsig)
         self.index = index
         self.comp = comp
         self.coordsys = operand.tensorsig[index]
-- 
2.43.0


From dd1efdbedbc9ba9cfa1405ff7d847209905c5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/42] fix: evaluate IVP right-hand sides on every step, also
 after the iteration is reset

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..b2ab601 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -567,7 +567,8 @@ class InitialValueSolver(SolverBase):
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Always evaluate with scheduled handlers, even if the iteration is reset (e.g. by load_state)
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From b488e4cf10d61b5b9961fab814282def6823fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/42] fix: keep the sign of the initial simulation time

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index b2ab601..cc47b6b 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -578,7 +578,8 @@ class InitialValueSolver(SolverBase):
             timestepper = timesteppers.schemes[timestepper]
         self.timestepper = timestepper(self)
         # Attributes
-        self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
+        local_time = np.max(problem.time['g'].real, initial=-np.inf)
+        self.sim_time = self.initial_sim_time = self.dist.comm_cart.allreduce(local_time, op=MPI.MAX)
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
         if np.isrealobj(self.dtype.type()):
-- 
2.43.0


From 2df3a1304deb8b50246d67666b30d6423f179aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 12/42] fix: log run statistics when no iterations or exactly
 the warmup iterations have been taken

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index cc47b6b..f7192d0 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -590,6 +590,7 @@ class InitialValueSolver(SolverBase):
         self.stop_sim_time = np.inf
         self.stop_wall_time = np.inf
         self.stop_iteration = np.inf
+        self.start_time_end = self.wall_time
         logger.debug('Finished IVP instantiation')
 
     @property
@@ -763,7 +764,7 @@ class InitialValueSolver(SolverBase):
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From 6ef561e78071093f4490e11ed2f8cce2a392a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 13/42] fix: schedule sim_dt outputs when the simulation time
 is negative

---
 dedalus/core/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..014c788 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -239,8 +239,9 @@ class Handler:
         self.custom_schedule = custom_schedule
         self.tasks = []
         # Set initial divisors to be -1 to trigger output on first iteration
+        # Simulation time may start negative
         self.last_wall_div = -1
-        self.last_sim_div = -1
+        self.last_sim_div = -np.inf
         self.last_iter_div = -1
 
     def check_schedule(self, **kw):
-- 
2.43.0


From 934d765413c91b1a7fc30e8135608db5bb60b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 14/42] fix: CFL spacing of Chebyshev axes that are not the
 leading axis

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 877d45b..221a2ee 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6158,7 +6158,7 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
                 N = basis.grid_shape((dealias,))[0]
             if isinstance(basis, Jacobi) and basis.a == -1/2 and basis.b == -1/2:
                 #Special case for ChebyshevT (a=b=-1/2)
-                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[i]
+                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[self.dist.get_axis(c)]
                 i = np.arange(N)[local_elements].reshape(axis_spacing.shape)
                 theta = np.pi * (i + 1/2) / N
                 axis_spacing[:] = dealias * basis.COV.stretch * np.sin(theta) * np.pi / N
-- 
2.43.0


From 708c3439893501576168bea6fb84f9b74814900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 15/42] fix: refresh cached subproblem field views when field
 buffers are replaced

---
 dedalus/core/subsystems.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..cd2388f 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,23 +319,29 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
+    @CachedAttribute
+    def _field_views_cache(self):
+        return {}
+
+    def _field_views(self, fields, views):
+        # Rebuild cached views if any field buffers have been replaced by scale changes
+        key = (id(views), fields)
+        buffers, field_views = self._field_views_cache.get(key, (None, None))
+        if buffers is None or any(field.buffer is not buffer for field, buffer in zip(fields, buffers)):
+            field_views = []
+            for field, buffer_data in zip(fields, views):
+                for buffer_view, field_slices in buffer_data:
+                    field_view = field.data[field_slices]
+                    field_views.append((buffer_view, field_view))
+            field_views = tuple(field_views)
+            self._field_views_cache[key] = (tuple(field.buffer for field in fields), field_views)
+        return field_views
+
     def _input_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._input_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._field_views(fields, self._input_views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._output_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._field_views(fields, self._output_views)
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
-- 
2.43.0


From 47384e03a985949a552185586eda417e09de1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 16/42] fix: keep field data in modes outside the solved groups
 when solving boundary value problems

---
 dedalus/core/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index f7192d0..3c147b3 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -397,7 +397,7 @@ class LinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.state:
-            field.preset_layout('c')
+            field.change_layout('c')
         # Solve system for each subproblem
         for sp in subproblems:
             # Gather RHS
@@ -478,7 +478,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.perturbations:
-            field.preset_layout('c')
+            field.change_layout('c')
         # Solve system for each subproblem, updating perturbations
         for sp in self.subproblems:
             # Gather RHS
-- 
2.43.0


From d22dd410ef869d338d51430ef7376ea5e3054f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 17/42] fix: build_EVP with default backgrounds or constant
 right-hand sides

---
 dedalus/core/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..caac624 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -412,6 +412,7 @@ class InitialValueProblem(ProblemBase):
                     L = L.replace(var, pert)
             # Take Frechet differential of F(X)
             if F:
+                F = Operand.cast(F, self.dist, tensorsig=eqn['tensorsig'], dtype=eqn['dtype'])
                 if F.has(self.time):
                     raise UnsupportedEquationError("Cannot convert time-dependent IVP to EVP.")
                 dF = F.frechet_differential(variables=variables, perturbations=perturbations, backgrounds=backgrounds)
@@ -421,7 +422,7 @@ class InitialValueProblem(ProblemBase):
             evp_eqn = EVP.add_equation((M + L - dF, 0))
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
-        for var in backgrounds:
+        for var in (backgrounds or []):
             EVP.local_namespace[var.name] = var
         return EVP
 
-- 
2.43.0


From fd3b27d804fb876944fb9e34916e534ab00429a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 18/42] fix: replacement of operators nested inside the same
 linear operator

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d80fb4f..a6aa163 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From dc4eef1adf75e93828640b2a4ae497355c3fbbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 19/42] fix: zero operands of locks and Cartesian components in
 symbolic manipulations

---
 dedalus/core/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a6aa163..a6d268a 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -821,6 +821,8 @@ class Lock(FutureLockedField, LinearOperator):
         np.copyto(out.data, arg0.data)
 
     def new_operand(self, operand, **kw):
+        if isinstance(operand, Number):
+            return operand
         return Lock(operand, *self.layouts, **kw)
 
 
@@ -3299,6 +3301,12 @@ class CartCompBase(LinearOperator, metaclass=MultiClass):
 
     name = 'Comp'
 
+    @classmethod
+    def _preprocess_args(cls, operand, index, comp, out=None):
+        if isinstance(operand, Number):
+            raise SkipDispatchException(output=0)
+        return (operand, index, comp), {'out': out}
+
     @classmethod
     def _check_args(cls, operand, index, comp, out=None):
         # Dispatch by coordinate system
-- 
2.43.0


From b69b0ab0dbc4b37655597c35ec09b67100d361c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 20/42] fix: averages and time derivatives could not be rebuilt
 with new operands

---
 dedalus/core/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a6d268a..fc803e5 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1022,6 +1022,11 @@ class TimeDerivative(LinearOperator):
     def base(self):
         return TimeDerivative
 
+    def new_operand(self, operand, **kw):
+        if isinstance(operand, Number):
+            return 0
+        return TimeDerivative(operand, **kw)
+
     def _expand_linop(self, operand, vars):
         """Expand over linear operator."""
         # Halt expansion when hitting another time derivative
@@ -1285,6 +1290,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From 124ec7214f256a07cd139c8b0da5172efc6cc827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 21/42] fix: simultaneous background replacement in Frechet
 differentials

---
 dedalus/core/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..ab48813 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -295,8 +295,12 @@ class Operand:
         # Replace variables with backgrounds, if specified
         if diff:
             if backgrounds:
-                for var, bg in zip(variables, backgrounds):
-                    diff = diff.replace(var, bg)
+                # Replace through temporary fields since backgrounds may include other variables
+                temps = [var.copy() for var in variables]
+                for var, temp in zip(variables, temps):
+                    diff = diff.replace(var, temp)
+                for temp, bg in zip(temps, backgrounds):
+                    diff = diff.replace(temp, bg)
         return diff
 
     @property
-- 
2.43.0


From 3696024bba834239d61ea7648b91b9f3c1e4ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 22/42] fix: use each basis' own scales for the grid scales of
 output files

---
 dedalus/core/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 014c788..25eeee1 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -548,10 +548,12 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    basis_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - basis_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[basis_axis:basis_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[subaxis]
-- 
2.43.0


From 19cc8c90ed4dc46a825e535e37a3e7e1faba37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 23/42] fix: label the coefficient axes of output files with
 their own groups

---
 dedalus/core/evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 25eeee1..90a1060 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -556,7 +556,10 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
+                        if basis.dim == 1:
+                            # Groups only vary along the basis axis
+                            data = np.ascontiguousarray(np.moveaxis(data, axis, 0).reshape(data.shape[axis], -1)[:, 0])
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 4e5c5359f107d4bb66908d76edff1d8e8d98c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 24/42] fix: keep the full handler name in output file names
 containing dots

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 90a1060..f43317f 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -493,7 +493,7 @@ class H5FileHandlerBase(Handler):
 
     @property
     def current_file(self):
-        return self.current_path.with_suffix('.h5')
+        return self.current_path.with_name(self.current_path.name + '.h5')
 
     def get_file(self, **kw):
         """Return current HDF5 file, creating if necessary."""
-- 
2.43.0


From 8795a0e95215e6909db24e02244202731ede0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 25/42] fix: provide the grids of ball and shell radial bases
 to output files

---
 dedalus/core/basis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 221a2ee..06f6aba 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3505,6 +3505,11 @@ class RegularityBasis(SpinRecombinationBasis, MultidimensionalBasis):
     def get_radial_basis(self):
         return self
 
+    def global_grids(self, dist, scales):
+        # Constant directions have single-point grids
+        constant_grid = np.zeros((1,) * dist.dim)
+        return (constant_grid, constant_grid, self.global_grid(dist, scales[2]))
+
     def global_grid(self, dist, scale):
         problem_grid = self._radius_grid(scale)
         radial_axis = dist.get_basis_axis(self) + 2
-- 
2.43.0


From f5579aecfd71ae1961c6564be722089bbb5b69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 26/42] fix: find previous output sets of handlers with special
 characters in their names

---
 dedalus/core/evaluator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f43317f..3bbc043 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -1,5 +1,6 @@
 """Class for centralized evaluation of expression trees and handling the results."""
 
+import glob
 import os
 import re
 from collections import defaultdict
@@ -400,7 +401,7 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
+            set_pattern = '%s_s*' % glob.escape(self.base_path.stem)
             sets = list(self.base_path.glob(set_pattern))
             if mode == "overwrite":
                 for set in sets:
@@ -414,10 +415,10 @@ class H5FileHandlerBase(Handler):
                 set_nums = []
                 if sets:
                     for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
+                        m = re.match(r"{}_s(\d+)$".format(re.escape(base_path.stem)), set.stem)
                         if m:
                             set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
+                    max_set = max(set_nums, default=0)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
                     if os.path.exists(str(joined_file)):
-- 
2.43.0


From 7a1c8ac92a1eeaf7434cbf3d8371616eb0dd0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 27/42] fix: do not exceed specified grid shapes through
 rounding when loading or filtering fields

---
 dedalus/core/field.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ab48813..4d5cf6c 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -747,6 +747,14 @@ class Field(Current):
         else:
             raise ValueError("Can only load global data from pure grid or coeff space")
 
+    def _scales_from_shape(self, shape):
+        """Scales corresponding to a specified global grid shape."""
+        shape = np.array(shape)
+        base_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        scales = shape / base_shape
+        # Avoid exceeding the specified shape due to rounding
+        return np.where(np.ceil(scales * base_shape) > shape, np.nextafter(scales, 0), scales)
+
     def load_from_global_coeff_data(self, global_data, pre_slices=tuple(), func=None):
         """Load local coeff data from array-like global coeff data."""
         dim = self.dist.dim
@@ -770,7 +778,7 @@ class Field(Current):
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._scales_from_shape(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -963,8 +971,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._scales_from_shape(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From dca2186d9202dc4fb958454b55a133acad4145ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 28/42] fix: set global data of vector and tensor fields

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 4d5cf6c..f1b2325 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -627,7 +627,8 @@ class Field(Current):
 
     def set_global_data(self, global_data):
         elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        components = tuple(np.arange(cs.dim) for cs in self.tensorsig)
+        self.set_local_data(global_data[np.ix_(*components, *elements)])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From d59983bbb7108d3644ce1cddf553f9e2185ba2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 29/42] fix: L2 norms of rank-2 tensor fields

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index f1b2325..b2459c6 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -864,7 +864,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.DotProduct(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From b2ee13dfd66794174d8522e8b6b1540ca78c21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 30/42] fix: zero unresolved modes in half-complex transforms
 without nonconstant modes

---
 dedalus/core/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 8200187..e377c78 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -610,7 +610,7 @@ class FFTWHalfComplexFFT(FFTWBase, RealFourierTransform):
         np.multiply(cdata_posfreq_cos, (1 / 2), temp_posfreq_cos)
         np.multiply(cdata_posfreq_msin, (1 / 2), temp_posfreq_msin)
         # Zero k > Kmax data
-        temp[axslice(axis, Kmax+1, -Kmax)] = 0
+        temp[axslice(axis, Kmax+1, self.N-Kmax)] = 0
 
     def forward(self, gdata, cdata, axis):
         """Apply forward transform along specified axis."""
-- 
2.43.0


From 6113d376c1ae244338f17cca1d1f551604b504dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 31/42] fix: build the polynomial of Jacobi lifts from global
 mode indices

The local index was used, so lifting to an axis distributed in coefficient
space put the mode on every process (or on none).
---
 dedalus/core/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 06f6aba..8fa3462 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -809,7 +809,8 @@ class LiftJacobi(operators.Lift, operators.Copy):
             n += basis.size
         P = dist.Field(bases=basis)
         axis = dist.get_basis_axis(basis)
-        P['c'][axslice(axis, n, n+1)] = 1
+        local_elements = dist.coeff_layout.local_elements(P.domain, scales=1)[axis]
+        P['c'] = reshape_vector(local_elements == n, dim=dist.dim, axis=axis)
         return P
 
 
-- 
2.43.0


From 01f1e361436c57ae798d114b4203c0f7792808cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 32/42] fix: report constant axes of sphere bases

The averages of fields on the sphere were not broadcast along the colatitude
when multiplied by other fields in parallel.
---
 dedalus/core/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 8fa3462..9d4d219 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2768,6 +2768,10 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             self.azimuth_basis.forward_coeff_permutation = self.forward_m_perm
             self.azimuth_basis.backward_coeff_permutation = self.backward_m_perm
 
+    @CachedAttribute
+    def constant(self):
+        return (self.mmax==0, self.Lmax==0)
+
     @CachedAttribute
     def latitude_basis(self):
         shape = (1, self.shape[1])
-- 
2.43.0


From 60bb6d81c48c016f75d402c399c5cbbb5f31da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 33/42] fix: embed axisymmetric polar bases when adding to full
 bases

Polar bases differing only in shape compared as equal, so sums in
coefficient space (or with partially transformed data) added axisymmetric
coefficients to every azimuthal mode.
---
 dedalus/core/basis.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 9d4d219..aa482e4 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1896,8 +1896,9 @@ class PolarBasis(SpinBasis):
             if self.dtype == other.dtype:
                 if self.coordsys == other.coordsys:
                     if self.grid_params == other.grid_params:
-                        if self.k == other.k:
-                            return True
+                        if self.shape == other.shape:
+                            if self.k == other.k:
+                                return True
         return False
 
     def __hash__(self):
@@ -2598,6 +2599,25 @@ class ConvertPolar(operators.Convert, operators.PolarMOperator):
         operators.Convert.__init__(self, operand, output_basis, out=out)
         self.radius_axis = self.dist.last_axis(output_basis)
 
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        if self.input_basis.shape[0] != self.output_basis.shape[0]:
+            # Require full coeff space to insert missing modes, or local azimuth to copy over grid
+            layout = self.args[0].layout
+            azimuth_axis = self.radius_axis - 1
+            if layout.grid_space[azimuth_axis]:
+                return layout.local[azimuth_axis]
+            return layout.local[self.radius_axis] and not layout.grid_space[self.radius_axis]
+        return super().check_conditions()
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        if self.check_conditions():
+            return
+        # Require local radius in coeff space
+        self.args[0].require_coeff_space(self.radius_axis)
+        self.args[0].require_local(self.radius_axis)
+
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
 
-- 
2.43.0


From 5ce8617173480d2bf52207186efb88ace78651c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 34/42] fix: gather LBVP NCC coefficients on ranks without
 subproblems

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 3c147b3..4e2a3d4 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -387,7 +387,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Building is collective (NCCs are gathered), including processes without any subproblems
+        if self.dist.comm.allreduce(bool(sp_to_build), op=MPI.LOR):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From 47e073923b6f17070f1fa26ab2b76ea12a371df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 35/42] fix: transpose whole chunks with the MPI transpose
 library

---
 dedalus/core/transposes.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..c4a18db 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -254,6 +254,8 @@ cdef class AlltoallvTranspose:
     ----------
     global_shape : ndarray of np.int32
         Global array shape
+    chunk_shape : ndarray of np.int32
+        Chunk shape (elements kept together in the distribution)
     dtype : data type
         Data type
     axis : int
@@ -267,6 +269,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +287,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +300,12 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
-        # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Blocks of whole chunks
+        B1 = C1 * math.ceil(math.ceil(global_shape[axis] / C1) / pycomm.size)
+        B2 = C2 * math.ceil(math.ceil(global_shape[axis+1] / C2) / pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From d637312c3bb7d1f77cf05f4392f5c45b82344ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 36/42] fix: require local colatitudes for spherical azimuthal
 averages

---
 dedalus/core/basis.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index aa482e4..e7ed6f0 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5366,6 +5366,19 @@ class SphericalAzimuthalAverage(AzimuthalAverage, operators.Average, operators.S
     subaxis_dependence = [True, False, False]  # Depends on m only
     subaxis_coupling = [False, False, False]  # No coupling
 
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        # Require local colatitude in coeff space, since input and output ells may be distributed differently
+        layout = self.args[0].layout
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        return layout.local[colat_axis] and not layout.grid_space[colat_axis]
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        self.args[0].require_coeff_space(colat_axis)
+        self.args[0].require_local(colat_axis)
+
     def operate(self, out):
         """Perform operation."""
         operand = self.args[0]
-- 
2.43.0


From e98e129ebf36ec17ed36d3c2618630164170cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 37/42] fix: use evaluated outputs for right-hand sides sharing
 operators

---
 dedalus/core/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 3bbc043..b88c009 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -362,7 +362,9 @@ class SystemHandler(Handler):
     def process(self, **kw):
         """Gather fields into system."""
         #self.system.gather()
-        pass
+        # Reference current outputs, which may differ from preset outputs for shared operators
+        for i, task in enumerate(self.tasks):
+            self.fields[i] = task['out']
 
 
 class H5FileHandlerBase(Handler):
-- 
2.43.0


From 988813ce32ec38000de1e44990d53aa40dcbeeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 38/42] fix: keep re-evaluated operands in step with the
 evaluator

---
 dedalus/core/evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index b88c009..f3c0d15 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -121,6 +121,9 @@ class Evaluator:
             next_index = next(oscillate_indices)
             # Transform fields
             fields = self.get_fields(tasks)
+            # Catch up fields from operators being re-evaluated
+            for field in fields:
+                field.change_layout(self.dist.layouts[current_index])
             if current_index < next_index:
                 self.dist.paths[current_index].increment(fields)
             else:
-- 
2.43.0


From 04dbddd33c689f82ad56fdefda8c9e5b011cfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:17 +0000
Subject: [PATCH 39/42] fix: keep equation conditions when building EVPs from
 IVPs and NLBVPs

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index caac624..92557b9 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -419,7 +419,7 @@ class InitialValueProblem(ProblemBase):
             else:
                 dF = 0
             # Add linearized equation and copy valid modes
-            evp_eqn = EVP.add_equation((M + L - dF, 0))
+            evp_eqn = EVP.add_equation((M + L - dF, 0), condition=eqn['condition'])
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
         for var in (backgrounds or []):
-- 
2.43.0


From a3c71cc1ed1bafb3062dae09f777fd7fba43ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:17 +0000
Subject: [PATCH 40/42] fix: build separate matrices for groups selected by
 equation conditions

---
 dedalus/core/solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 4e2a3d4..1e16d53 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -1,5 +1,6 @@
 """Solver classes."""
 
+import ast
 from mpi4py import MPI
 import numpy as np
 import time
@@ -91,6 +92,12 @@ class SolverBase:
                 first_axis = self.dist.get_basis_axis(basis)
                 slices = slice(first_axis, first_axis+basis.dim)
                 self.matrix_dependence[slices] = self.matrix_dependence[slices] | basis.matrix_dependence(matrix_coupling[slices])
+        # Include dependence from groups appearing in equation conditions
+        for eq in problem.eqs:
+            condition_names = {node.id for node in ast.walk(ast.parse(eq['condition'].strip(), mode='eval')) if isinstance(node, ast.Name)}
+            for axis, coord in enumerate(self.dist.coords):
+                if 'n'+coord.name in condition_names:
+                    self.matrix_dependence[axis] = True
         # Process config options
         if matsolver is None:
             matsolver = config['linear algebra'][self.matsolver_default]
-- 
2.43.0


From c0102f24955c817b5aff1339de242da5136525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 41/42] fix: keep flow properties on their grid when
 integrating

---
 dedalus/extras/flow_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index bc6798b..5a2f216 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -122,7 +122,8 @@ class GlobalFlowProperty:
             integral_field = self.properties[integral_name]
         except KeyError:
             # Compute volume integral
-            field = self.properties[name]
+            # Integrate copy to leave property on its own grid
+            field = self.properties[name].copy()
             integral_op = operators.Integrate(field)
             integral_field = integral_op.evaluate()
         # Communicate integral value to all processes
-- 
2.43.0


From 9cabf35eedbdc1bb474bb143282ed6b5e3f8fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 42/42] fix: merge virtual output files

---
 dedalus/tools/post.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 92c2f65..35a7405 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -276,13 +276,19 @@ def merge_setup(joint_file, proc_paths, virtual=False):
                                                     dtype=proc_dset.dtype,
                                                     chunks=True)
             # Dataset metadata
-            joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
+            if 'task_number' in proc_dset.attrs:
+                joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
             joint_dset.attrs['constant'] = proc_dset.attrs['constant']
             joint_dset.attrs['grid_space'] = proc_dset.attrs['grid_space']
             joint_dset.attrs['scales'] = proc_dset.attrs['scales']
 
             for i, proc_dim in enumerate(proc_dset.dims):
                 joint_dset.dims[i].label = proc_dim.label
+                if virtual:
+                    # Scales are copied along with their names
+                    for scale in proc_dim.values():
+                        joint_dset.dims[i].attach_scale(joint_file[scale.name])
+                    continue
                 if joint_dset.dims[i].label == 't':
                     for scalename in ['sim_time', 'wall_time', 'timestep', 'iteration', 'write_number']:
                         scale = joint_file['scales'][scalename]
-- 
2.43.0

