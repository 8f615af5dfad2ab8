"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 dev/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP, HIST, CONF, PROG, SCHED, CRASH = 'inputs', 'histories', 'configurations', 'programs', 'schedules', 'crash_points'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


prop('C01', 'Time-integration coefficients are order-accurate for every step sequence',
     "For every registered multistep scheme and every sequence of positive timesteps, the scheme coefficients reproduce polynomials in time exactly up to the scheme's formal order, including the lower-order startup steps. For every registered Runge-Kutta scheme the implicit and explicit tableaux are consistent, stage-structured and satisfy the order conditions of the scheme's formal order.",
     [INP, CONF], 'all positive real timestep histories (multistep) and all schemes registered by name',
     'The tests run a few schemes at a constant step, where most coefficient formulas degenerate; variable-step terms are never exercised.',
     ['dedalus/core/timesteppers.py'], [('multistep compute_coefficients', 'dedalus/core/timesteppers.py'), ('RungeKuttaIMEX tableaux', 'dedalus/core/timesteppers.py')],
     'symbolic execution of compute_coefficients with rational functions of symbolic timesteps; polynomial identities decided by z3 over the reals', 'all positive timestep ratios; constants compared to 1e-9')
prop('C02', 'Each timestep advances the state exactly by the IMEX formula of the scheme',
     "Stepping an initial value problem solves exactly the scheme's implicit-explicit formula: the new state satisfies the linear system built from this step's timestep, the current mass and linear matrices, the stored history and right-hand sides evaluated at the right state and stage time. Simulation time, the time field and the iteration count advance consistently with every step. Scheduled outputs of a step see the state, time and iteration at its start. This holds for every scheme, every sequence of timestep sizes and every problem structure, also after an earlier state is loaded into a one-step scheme.",
     [INP, HIST, CONF], 'all initial states, over a table of problems x schemes x variable-timestep sequences x solver options',
     'Tests check final errors at a constant timestep against a loose tolerance; stale factorizations, wrong stage times or history mix-ups with changing timesteps stay inside it.',
     ['dedalus/core/timesteppers.py', 'dedalus/core/solvers.py', 'dedalus/core/evaluator.py', 'dedalus/core/subsystems.py', 'dedalus/core/system.py'],
     [('MultistepIMEX.step, RungeKuttaIMEX.step', 'dedalus/core/timesteppers.py'), ('InitialValueSolver.step', 'dedalus/core/solvers.py'), ('gather/scatter', 'dedalus/core/subsystems.py')],
     'symbolic execution of whole timesteps with a symbolic initial state (linear and quadratic forms); the new state equals an independent evaluation of the formula for all states, decided by z3', 'bounded resolutions, 1-5 steps over two-value timestep sequences; linear solves by contract')
prop('C03', 'LHS matrices act exactly like explicit evaluation of the same operator',
     "For every linear operator supported on equation left-hand sides, the subproblem matrices applied to the coefficients of any field data give exactly the coefficients obtained by evaluating the same expression explicitly. This holds in every geometry, for scalar, vector and tensor operands, real and complex data, and every supported choice of coupled axes.",
     [INP, PROG, CONF], 'all coefficient data of the operands, over a table of operators x bases x tensor ranks x data types x couplings',
     'Tests compare a few operators on a few smooth functions on one side only; a wrong entry for one mode, spin component or group is invisible to them.',
     ['dedalus/core/operators.py', 'dedalus/core/basis.py', 'dedalus/core/subsystems.py', 'dedalus/core/arithmetic.py'],
     [('subproblem_matrix / operate of every operator', 'dedalus/core/operators.py'), ('curvilinear operators, lifts, conversions', 'dedalus/core/basis.py'), ('build_matrices', 'dedalus/core/subsystems.py')],
     'symbolic execution of matrix assembly and explicit evaluation with symbolic coefficient data (linear forms), equality of every output entry decided by z3', 'bounded resolutions; every data value within |x|<=1, tolerance 1e-9')
prop('C04', 'Products with non-constant coefficients act in matrices as when evaluated',
     "For every product of an unknown with a known coefficient field on an equation left-hand side, the matrix built for it gives exactly the coefficients of the explicitly evaluated product whenever that product is resolved. This holds for multiplication, dot and cross products in either order, tensors of any supported rank, nested operators, real and complex data, every geometry and every azimuthal or degree group.",
     [INP, PROG, CONF], 'all data of the unknown, generic coefficient fields, over products x ranks x geometries x basis parameters',
     'Tests multiply a few smooth functions that excite one or two groups; sine parts, folded orderings and high azimuthal orders of the matrices stay untested.',
     ['dedalus/core/arithmetic.py', 'dedalus/core/basis.py', 'dedalus/tools/clenshaw.py'],
     [('Product.build_ncc_matrix, Gamma couplings', 'dedalus/core/arithmetic.py'), ('_last_axis_component_ncc_matrix, product_matrix', 'dedalus/core/basis.py'), ('matrix_clenshaw', 'dedalus/tools/clenshaw.py')],
     'symbolic execution of the explicit product with symbolic unknown data (linear forms) against the assembled matrices; equality of every output entry decided by z3', 'bounded resolutions; generic concrete coefficient fields, resolved products; tolerance 1e-9')
prop('C05', 'Boundary, Newton and eigenvalue solves satisfy the stated equations',
     "After a linear boundary value solve the variables satisfy every equation with the current right-hand sides and coefficients and hold nothing else, whatever they contained before, for repeated, partial and rebuilt solves. A Newton iteration updates the state by the damped solution of the equations linearized about the current state. For eigenvalue problems (also those built from initial value problems), an eigenpair set as state satisfies the equations in its group only, and left eigenvectors have the documented normal forms.",
     [INP, HIST, CONF], 'all right-hand sides, eigenvectors and perturbations, over problems x geometries x solver options x solve histories x field scales',
     'Tests solve one manufactured problem per geometry from a clean start; leftover state, repeated or partial solves, scaled variables and mode bookkeeping are not covered.',
     ['dedalus/core/solvers.py', 'dedalus/core/problems.py', 'dedalus/core/subsystems.py', 'dedalus/core/field.py'],
     [('LinearBoundaryValueSolver.solve, NonlinearBoundaryValueSolver.newton_iteration, EigenvalueSolver.solve_dense/solve_sparse/set_state', 'dedalus/core/solvers.py'), ('build_EVP, matrix expressions', 'dedalus/core/problems.py'), ('gather/scatter views', 'dedalus/core/subsystems.py')],
     'symbolic execution of whole solves with symbolic right-hand sides, eigenvectors or perturbations (linear and quadratic forms); the residual of an independent evaluation of the equations must vanish for all data, decided by z3', 'bounded resolutions; linear solves and eigensolves by contract; tolerance 1e-7')
prop('C06', 'Fourier transforms are exact, inverse to each other and library-independent',
     "For real and complex Fourier bases of any size and scale, every available transform library maps coefficients to the samples of the corresponding trigonometric polynomial and back, keeps exactly the representable modes when changing scale, and discards the Nyquist mode. The result does not depend on the axis, the other axes' shapes, or leftover buffer contents.",
     [INP, CONF], 'all data, sizes 1..16 (both parities), scales, axes, libraries',
     'Tests round-trip random data for one size per library with a tolerance; odd sizes, truncation and stale-buffer paths are not covered.',
     ['dedalus/core/transforms.py', 'dedalus/core/basis.py', 'dedalus/libraries/fftw/fftw_wrappers.pyx'],
     [('RealFourier/ComplexFourier MMT and FFT transforms, resize_rescale', 'dedalus/core/transforms.py')],
     'symbolic execution of the transforms with symbolic data (linear forms, FFT kernels by their exact contract); equality with the trigonometric reference decided by z3', 'bounded sizes; compiled FFT libraries by contract')

prop('C07', 'Polynomial transforms are exact for every Jacobi family, size and library',
     "For Chebyshev, Legendre, ultraspherical and general Jacobi bases of any size and scale, every transform library evaluates the orthonormal polynomial series at the Gauss points and maps grid data to the coefficients of its interpolating polynomial. Unresolved modes are dropped and nothing else changes, independently of axis, other dimensions and leftover buffer contents.",
     [INP, CONF], 'all data, sizes, scales, (a, b, a0, b0) parameters, libraries, conversion-truncation settings',
     'Tests round-trip random data for a few sizes and parameters; grids smaller than the basis, single-point grids and multi-dimensional layouts are not covered.',
     ['dedalus/core/transforms.py', 'dedalus/core/basis.py', 'dedalus/tools/jacobi.py', 'dedalus/libraries/dedalus_sphere/jacobi.py'],
     [('JacobiMMT, FastChebyshevTransform', 'dedalus/core/transforms.py'), ('build_grid, conversion_matrix', 'dedalus/tools/jacobi.py')],
     'symbolic execution of the transforms with symbolic data (linear forms, DCT kernels by contract); equality with scipy-based polynomial references decided by z3', 'bounded sizes; compiled DCT libraries by contract; tolerance 1e-9')

prop('C08', 'Curvilinear transforms are exact spin-weighted expansions and projections',
     "On disks, annuli, spheres, balls and shells, for scalars, vectors and tensors, real or complex, at every derivative level and weight, including axisymmetric, radial and boundary fields: the coefficient that the group table assigns to a mode multiplies exactly that orthonormal mode (spin-weighted harmonic, generalized Zernike or Jacobi polynomial, regularity component), on every grid. Setting grid data gives exactly the coefficients of its modes within the truncation and nothing else, whatever the scale of the grid and the previous contents; smooth fields are the same function on every grid.",
     [INP, CONF], 'all data, over tables of geometries x shapes x ranks x levels x weights x scales (below and above one, per axis)',
     'Tests round-trip random data at one or two scales, which cannot see a wrong mode table, spin convention, misplaced triangular truncation, unequal scales or stale contents.',
     ['dedalus/core/transforms.py', 'dedalus/core/basis.py', 'dedalus/core/distributor.py', 'dedalus/libraries/dedalus_sphere/zernike.py', 'dedalus/libraries/dedalus_sphere/sphere.py', 'dedalus/libraries/dedalus_sphere/spin_operators.py'],
     [('SWSHColatitudeTransform, DiskRadialTransform, BallRadialTransform', 'dedalus/core/transforms.py'), ('forward/backward_transform_*, spin and regularity recombination, elements_to_groups, m_maps, ell_maps', 'dedalus/core/basis.py')],
     'symbolic execution of the transforms with symbolic coefficients or grid data (linear forms); equality with an independent mode table built from classical Jacobi polynomials and spin/regularity frames decided by z3', 'bounded shapes, ranks and scales; compiled kernels by contract; regularity components by formula to rank 1, by smooth fields to rank 2; tolerance 1e-8')

prop('C09', 'A field is the function it represents in every layout and scale',
     "Whatever sequence of layout changes, scale changes, views, assignments, copies, gathers and filters a field goes through, its data are those of one function: exactly the one last assigned, losing only the modes that a grid it has been moved to cannot resolve. Copies and unlocked fields are equal and independent. Low- and high-pass filters keep exactly the modes that the given shape or scales resolve, respectively the rest. Locked fields never leave their layouts. Norms are those of the data or of the function, and normalizing gives unit norm.",
     [INP, HIST, CONF], 'all coefficients or grid data; all operation sequences up to the depth bound; tables of geometries, scales, layouts, ranks and partly constant domains',
     'Tests transform once there and back at one scale; partially transformed layouts, scale changes inside them, buffers shared between scales and copies are not exercised.',
     ['dedalus/core/field.py', 'dedalus/core/distributor.py', 'dedalus/core/operators.py'],
     [('Field.change_scales/change_layout/preset_scales/copy/low_pass_filter/set_global_data', 'dedalus/core/field.py'), ('LockedField', 'dedalus/core/field.py'), ('Transform.increment/decrement', 'dedalus/core/distributor.py')],
     'symbolic execution of every operation sequence on fields with symbolic data; all data compared with the function followed independently (analytic per-axis matrices; fresh fields in curvilinear geometries) by z3', 'two operations (three in the thorough tier) from tables of ~25; small resolutions; serial; tolerance 1e-9')

prop('C10', 'Symbolic manipulation of expressions preserves their meaning',
     "Expressions evaluate to what their operators mean however they are combined and may be evaluated again with the same result. Splitting an expression over fields or operators gives two parts that add up to it, the second free of them; for linear expressions the first holds exactly the terms of the split variables. Replacing an operand or an operator substitutes it everywhere and nowhere else and leaves the original alone. The Frechet differential of an expression is its directional derivative at the given backgrounds, for sums, products, dot and cross products, powers, elementary and user functions, and every linear operator.",
     [PROG, INP], 'all typed expression trees within the depth bound, every operator, all data values, all arguments in the domain of each elementary function',
     'Tests build a few fixed expressions with distinct operands; repeated, nested, zero and constant operands and most derivative rules are never exercised.',
     ['dedalus/core/field.py', 'dedalus/core/arithmetic.py', 'dedalus/core/operators.py', 'dedalus/core/future.py'],
     [('split, sym_diff, replace, new_operand(s), reinitialize of every operator', 'dedalus/core/operators.py'), ('Add, Product', 'dedalus/core/arithmetic.py'), ('frechet_differential, cast', 'dedalus/core/field.py')],
     'symbolic execution of the manipulated and evaluated expressions on symbolic data (polynomial forms; algebraic relations for elementary functions); equality with the directly computed value or derivative decided by z3', 'trees of depth <= 3 and degree <= 4; one small geometry per coordinate system; tolerance 1e-9')

prop('C11', 'Operators and products evaluate to the exact vector-calculus result',
     "Evaluating an expression on any field that the bases represent gives the exact result of vector calculus in physical components: derivatives, gradients, divergences, curls, Laplacians, traces, transposes, skews, component selection, interpolation at any position, integrals and averages, and sums, dot, cross and tensor products. This holds in every geometry, for any tensor rank and tensor index (negative ones included), real and complex data, any basis parameters and any layout or scale the operand happens to be in.",
     [INP, PROG, CONF], 'all representable fields of bounded degree, over operators x tensor indices x ranks x geometries x basis parameters',
     'Tests differentiate one or two chosen functions per operator, which have zero error for many wrong mode, component or packing choices.',
     ['dedalus/core/operators.py', 'dedalus/core/basis.py', 'dedalus/core/arithmetic.py', 'dedalus/core/distributor.py', 'dedalus/core/transforms.py'],
     [('operate of all operators', 'dedalus/core/operators.py'), ('curvilinear operators and transforms', 'dedalus/core/basis.py'), ('Add, Multiply, DotProduct, CrossProduct', 'dedalus/core/arithmetic.py'), ('local_groupset_slices', 'dedalus/core/distributor.py')],
     'symbolic execution of set-grid-data, operator evaluation and get-grid-data on a field with symbolic coefficients in a polynomial space; equality with an independent tensor calculus at every grid point decided by z3', 'bounded resolutions and polynomial degrees; tolerance 1e-8')

prop('C14', 'Outputs fire exactly on schedule',
     "An output handler fires on the first iteration and on every multiple of its iteration cadence, whenever its wall-time cadence is passed, on the closest approach to every multiple of its simulation-time cadence (once each), and whenever its custom schedule says so; never otherwise. With several criteria it fires exactly when one of them does. It is processed once per evaluation, with the iteration, times and timestep of that evaluation.",
     [HIST, INP], 'all start iterations and times, timestep and wall-clock sequences, cadences, combinations of criteria',
     'Tests write a few outputs at constant timesteps from iteration zero; restarts, varying steps, and combined criteria are not covered.',
     ['dedalus/core/evaluator.py'], [('Handler.check_schedule', 'dedalus/core/evaluator.py'), ('Evaluator.evaluate_scheduled', 'dedalus/core/evaluator.py')],
     'path-forking symbolic execution of the scheduler with symbolic times, timesteps and iterations; z3 decides every firing decision', 'bounded number of evaluations; cadences from a table; times as reals')
prop('C15', 'Output files hold what was scheduled, labelled correctly, and restart exactly',
     "Every write of a file handler stores, for every task, the data of its expression at the time of the write in the requested layout and scales, together with the simulation time, wall time, timestep, iteration and a write number that increases by one across sets. A set never holds more than the maximal number of writes; appending continues set and write numbers after the existing sets and overwriting removes exactly the handler's own. Axes are labelled by coordinate and carry the grid points or mode numbers of the stored data. Writing leaves the state alone. Loading any stored write restores the state, times and counters, padding or truncating the spectrum when the resolution differs.",
     [INP, HIST, CONF], 'all field states and times; tables of task kinds, geometries, layouts, scales, set sizes, sequences of runs and resolutions',
     'Tests write and reload one field at one scale per handler; labels, anisotropic scales, set boundaries, append sequences and most resolution pairs are never looked at.',
     ['dedalus/core/evaluator.py', 'dedalus/core/field.py', 'dedalus/core/solvers.py', 'dedalus/core/basis.py'],
     [('H5FileHandlerBase, H5GatherFileHandler, H5VirtualFileHandler', 'dedalus/core/evaluator.py'), ('load_from_hdf5, load_from_global_grid_data', 'dedalus/core/field.py'), ('load_state', 'dedalus/core/solvers.py')],
     'symbolic execution of the real handlers and load_state with symbolic states and times over an in-memory HDF5 model (replays use the real h5py); stored values, labels and restarted states compared with direct evaluation by z3', 'serial gather and virtual handlers; up to 3 writes per run and 3 runs; listed resolutions; tolerance 1e-8')

prop('C16', 'CFL timesteps follow the flow speed and the configured limits',
     "The advective frequency of a velocity is, at every grid point, the sum over directions of speed over local effective grid spacing, in every geometry, at every dealiasing factor and axis order. The CFL tool returns the safety factor over the largest total frequency, limited by the minimum and maximum timestep and by the allowed change, keeps the old timestep within the threshold and between cadence iterations, and always uses frequencies of the current flow.",
     [INP, HIST, CONF], 'all velocities, over geometries and dealias factors; all sequences of frequencies and option values',
     'Tests check the frequency for one constant flow per geometry; limits, thresholds, cadences after restarts, and unusual axis orders are untested.',
     ['dedalus/extras/flow_tools.py', 'dedalus/core/basis.py', 'dedalus/core/operators.py'],
     [('CFL.compute_timestep', 'dedalus/extras/flow_tools.py'), ('compute_cfl_frequency, cfl_spacing', 'dedalus/core/basis.py'), ('AdvectiveCFL', 'dedalus/core/operators.py')],
     'symbolic execution of frequency evaluation (symbolic speeds) and of the timestep logic (symbolic frequencies, options and iterations); equality with the documented formula decided by z3', 'bounded resolutions and number of calls; fixed sign patterns of velocities')
prop('C17', 'Initial value runs start, step and stop exactly as configured',
     "A run starts at the time held by the time field, proceeds exactly until simulation time, wall time or iteration reaches its stop value, and refuses to run without a stop condition. Every step uses the requested timestep once, rejects non-finite timesteps before changing anything, and advances iteration and time together. Real-valued states are symmetrized for as many consecutive steps as the scheme keeps history, every cadence, without changing representable data.",
     [INP, HIST, CONF], 'all times, clocks, iterations and stop values; short runs of any length within the bound; restarts',
     'Tests use a fixed number of steps of one size; stop conditions, restarts, signs of time and symmetrization cadence are not exercised.',
     ['dedalus/core/solvers.py'], [('InitialValueSolver.proceed/step/evolve', 'dedalus/core/solvers.py'), ('enforce_hermitian_symmetry', 'dedalus/core/solvers.py')],
     'path-forking symbolic execution of the solver with symbolic clock, times, timesteps and iterations (the numerical update replaced by a recorder); z3 decides every assertion', 'up to four steps; cadences and orders from a table; times as reals')

prop('C18', 'Sparse, dense and spin kernels apply exactly the given matrices',
     "Applying a sparse or dense matrix along any axis of an array of any dimension and shape gives exactly the matrix product along that axis, for every sparsity structure, with or without a given output, whatever it contained, and without touching the input. Upper triangular sparse solves return the exact solution along any axis, in place or not. Spin recombination is the documented unitary change of components and leaves all others unchanged. Parallel loops never race and no kernel accesses memory outside its arrays.",
     [INP, CONF, SCHED], 'all entries, data, sparsity patterns and shapes within the bounds; all schedules of parallel loops',
     'Tests run the kernels on a few square banded matrices and array shapes with one thread; size-one dispatch, empty or unsorted rows and out-of-bounds accesses are not covered.',
     ['dedalus/tools/linalg.pyx', 'dedalus/tools/array.py', 'dedalus/libraries/spin_recombination.pyx'],
     [('apply_csr, solve_upper_csr and their kernels', 'dedalus/tools/linalg.pyx'), ('recombine_forward, recombine_backward', 'dedalus/libraries/spin_recombination.pyx'), ('apply_sparse, apply_dense, solve_upper_sparse', 'dedalus/tools/array.py')],
     'the .pyx sources are parsed by Cython itself, re-emitted as Python over a checked memory model and executed symbolically with symbolic structures and entries; z3 decides every entry', 'matrices up to 3x3 with few entries, arrays up to 4 dimensions')


prop('C20', 'Results do not depend on the process mesh or transpose options',
     "Running on any process mesh gives, on every rank, exactly that rank's part of the serial result: for fields moved through all layouts and scales, in any transpose library and grouping option, for expressions broadcasting over constant axes, scheduled tasks, gathering, loading, filtering, norms and random fills (whatever the chunk size), and for whole boundary value solves and timesteps. Local sizes and slices partition the data exactly. Ranks with little or no data never deadlock, fail, or mismatch collectives.",
     [INP, CONF, SCHED], 'all field data and random streams; process meshes, domains and geometries from a table; any schedule (the code between collectives is independent)',
     'The test suite runs serially; parallel runs, empty ranks, and constant axes on distributed dimensions are not exercised at all.',
     ['dedalus/core/distributor.py', 'dedalus/core/transposes.pyx', 'dedalus/core/arithmetic.py', 'dedalus/core/field.py', 'dedalus/core/solvers.py', 'dedalus/core/evaluator.py'],
     [('Layout sizes and slices, Transpose', 'dedalus/core/distributor.py'), ('AlltoallvTranspose, FFTWTranspose', 'dedalus/core/transposes.pyx'), ('GhostBroadcaster', 'dedalus/core/arithmetic.py'), ('gather_data, set_global_data, fill_random, allreduce_data_norm', 'dedalus/core/field.py'), ('subproblem construction and solves', 'dedalus/core/solvers.py')],
     'the real code runs once per simulated rank on shared symbolic data, over a simulated MPI in which collectives exchange symbolic buffers and must match; equality with the serial run decided by z3', 'up to 6 ranks; listed domains, meshes and programs; solves by contract; complex data with the Alltoallv planner not encoded')


prop('C12', 'Outputs evaluated together, repeatedly or in any order are independent',
     "Evaluating any collection of outputs together, through any number of handlers, groups and orders, starting from fields in any layouts and scales, gives for each output exactly the value it has when evaluated alone: shared subexpressions, repeated outputs and outputs of plain fields do not influence each other, nothing is remembered once data have changed, delivered outputs stay independent of the fields, and the fields keep their data. The right-hand sides a solver integrates are the expressions given, however many equations, outputs or other solvers share them.",
     [INP, HIST, PROG, CONF], 'all field data; output collections from a table, orders, layouts, groupings, memory options',
     'Tests evaluate a few independent tasks once; shared operators, repeated evaluations after data changes, and mixed initial layouts are untested.',
     ['dedalus/core/evaluator.py', 'dedalus/core/future.py', 'dedalus/core/operators.py', 'dedalus/core/arithmetic.py', 'dedalus/core/solvers.py'],
     [('Evaluator.evaluate_handlers, Handler.add_task, SystemHandler', 'dedalus/core/evaluator.py'), ('Future.evaluate, attempt, get_out', 'dedalus/core/future.py'), ('check_conditions, enforce_conditions', 'dedalus/core/operators.py'), ('right-hand side handlers', 'dedalus/core/solvers.py')],
     'symbolic execution of the real evaluator on fields holding symbolic data; every delivered output against the same expression evaluated alone, decided by z3', 'two generic directions per operand; listed geometries and expressions; groups of five expressions and their derivatives over three handlers')

prop('C13', 'Equations are read, split, refused and restricted as documented',
     "A string equation means exactly the operator equation it spells: it is split at its one top-level equals sign (and refused without or with several), names are the problem variables, then the given namespace as it is when the equation is added, then the operators. The matrices of an accepted equation act as its left-hand side (time derivatives and eigenvalue factors in M, the rest in L) and its right-hand side is the one given; equations outside the documented forms (nonlinear, affine or time-dependent left-hand sides, second time derivatives, variables or derivatives on the wrong side, too large right-hand sides) are refused. A condition selects exactly the groups for which it is true, whatever else distinguishes them, also in derived eigenvalue problems; systems that are not square in some group are refused.",
     [INP, PROG, CONF], 'all strings of bounded length over the relevant characters; all values of variables and known fields; expression forms, conditions and groups from tables',
     'Tests write a few well-formed equations; malformed strings, shadowed names, refused forms and conditions that alone distinguish groups are untested.',
     ['dedalus/core/problems.py', 'dedalus/tools/parsing.py', 'dedalus/core/subsystems.py', 'dedalus/core/solvers.py'],
     [('add_equation, _check_equation_conditions, _build_matrix_expressions, build_EVP', 'dedalus/core/problems.py'), ('split_equation', 'dedalus/tools/parsing.py'), ('check_condition, build_matrices', 'dedalus/core/subsystems.py'), ('matrix_dependence', 'dedalus/core/solvers.py')],
     'symbolic execution of the equation splitter on symbolic characters, and of the real problem classes on symbolic vectors, decided by z3', 'strings up to 5 characters (thorough: 7); listed problems, expression forms and conditions')

prop('C19', 'Subproblem vectors hold every valid mode once, in the documented order',
     "Gathering variables into the vectors of the subproblems and scattering them back reproduces exactly the valid modes, and the vectors are independent of each other: every valid mode of every variable and equation has exactly one place in exactly one subproblem, whatever the geometry, tensor rank, dtype, group sharing or ordering options. Vectors are ordered as the options document (dimension first or last, modes, then components and fields), the equations act the same under every ordering and coupling option, stored matrices equal the ones they were built from, and the coefficients of any grid data are valid modes.",
     [INP, CONF], 'all field data and vectors; all ordering options; problems and geometries from a table',
     'Tests solve single problems with default options; permutations with mixed dimensions and ranks, shared matrices and stale or invalid coefficients are untested.',
     ['dedalus/core/subsystems.py', 'dedalus/core/basis.py', 'dedalus/core/distributor.py', 'dedalus/tools/array.py'],
     [('Subproblem.gather/scatter, build_matrices, left/right_permutation', 'dedalus/core/subsystems.py'), ('valid_elements, elements_to_groups', 'dedalus/core/basis.py'), ('perm_matrix, drop_empty_rows, expand_pattern', 'dedalus/tools/array.py')],
     'symbolic execution of the real gathers and scatters on arbitrary symbolic coefficients; results decided by z3 against a sort-based statement of the documented order', 'one small problem per geometry; listed ordering and coupling options')

prop('C21', 'Output files of parallel runs equal those of the serial run',
     "Files written by gathering, by per-process files joined virtually, by merging those files afterwards (with or without removing them, alone or shared by several processes), or by parallel HDF5, on any process mesh, hold the datasets, dimension scales, labels and attributes that the serial run writes, for every kind of task, including constant dimensions and ranks without data; writing leaves the state alone and restarts from them give every rank its part of the state. Writes shared out over processes are each visited exactly once.",
     [INP, CONF, HIST], 'all field data and times; process meshes, geometries, task kinds and write histories from tables; all set sizes in the assignment',
     'The test suite runs serially and writes few files; parallel layouts of tasks, empty ranks and merging are not exercised at all.',
     ['dedalus/core/evaluator.py', 'dedalus/core/distributor.py', 'dedalus/core/solvers.py', 'dedalus/tools/post.py'],
     [('H5GatherFileHandler, H5VirtualFileHandler, H5ParallelFileHandler', 'dedalus/core/evaluator.py'), ('Layout local and global elements', 'dedalus/core/distributor.py'), ('load_state', 'dedalus/core/solvers.py'), ('merge_virtual_analysis, visit_writes, get_assigned_writes', 'dedalus/tools/post.py')],
     'the real handlers and merging code run once per simulated rank on symbolic data over a simulated MPI and an in-memory HDF5; equality of every dataset with the serial file decided by z3', 'up to 6 ranks; three writes in sets of two; listed geometries and tasks; HDF5 by contract')

prop('C22', 'Global flow properties are the reductions of the expression over all ranks',
     "On any process mesh, with empty ranks, for precomputed or on-demand integrals, any number and order of queries and any cadence, the minimum, maximum, grid average and volume integral of a flow property are the minimum, maximum, mean and integral over the whole domain of the scheduled expression as last evaluated, on every rank; queries do not change each other or the solver's fields. The array reducer gives exactly the extrema and mean of the values over all ranks.",
     [INP, CONF, HIST], 'all values and field data; process meshes, geometries, query orders and cadences from tables',
     'Tests do not exercise flow properties in parallel, with empty ranks, or queried repeatedly.',
     ['dedalus/extras/flow_tools.py', 'dedalus/core/evaluator.py'],
     [('GlobalFlowProperty, GlobalArrayReducer', 'dedalus/extras/flow_tools.py'), ('DictionaryHandler', 'dedalus/core/evaluator.py')],
     'symbolic execution of the real reducer and flow properties on simulated ranks; extrema stated by bounds and membership, integrals against the serial operators, decided by z3', 'up to 6 ranks; up to 4 symbolic values per reduction; extrema of field data on fixed data, everything else symbolic; integrals over spheres and of constant fields excluded')



def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    checks, na = [], []
    for p in P:
        assert len(p['title']) <= 80, p['id']
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        else:
            assert os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')), p['id']
            checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} --tier quick", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                               technique=p['technique'], level='other', level_note=p['note']))
    m = dict(version=1, setup_cmd='true', hooks=dict(guard='VERIF_HOOKS', enable='no hooks are needed: the checks import the unmodified sources'),
             checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for line in open(os.path.join(ROOT, 'properties.jsonl')):
            jsonschema.validate(json.loads(line), s)
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        pass
    print(len(P), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
