# -*- coding: utf-8 -*-
SETUP = '/opt/venv/bin/python -c "import numpy, scipy, mpi4py" && python3-vt -c "import hypothesis"'
_3 = 'objects/CSCG/_3d/'
_2 = 'objects/CSCG/_2d/'
_B = 'objects/CSCG/base/'
_T = 'objects/miUsGrid/triangular/'
_W = 'tools/elementwiseCache/'
_L = 'tools/miLinearAlgebra/'
I, H, C, S = 'inputs', 'histories', 'configurations', 'schedules'
PROPS = [
 dict(id='P01', title='Quadrature rules and 1-d/tensor polynomial bases satisfy their definitions',
  statement='Every quadrature rule (Gauss, Lobatto, Chebyshev; any degree, 1 to 3 dimensions) integrates exactly all polynomials up to its guaranteed degree. Every 1-d basis, over Lobatto or arbitrary increasing nodes, has nodal functions that are Kronecker at the nodes and edge functions with unit integral over their own interval and zero over the others, the tensor spaces arrange them in the documented local dof order, and the answer of an evaluation does not depend on earlier evaluations.',
  quant=([I, H], 'all categories, degrees, node sets, spaces and evaluation point sets; all histories of evaluations of one basis'),
  why='the tests check a few degrees of one category against stored numbers and never evaluate one basis twice with changed arrays',
  files=['components/quadrature.py', _B + 'spaces/_1d_basis/polynomials.py', _3 + 'spaces/polynomials', _2 + 'spaces/polynomials'] ,
  mech=[('Gauss/Lobatto/Chebyshev node iteration', 'components/quadrature.py'), ('node_basis/edge_basis and caches', _B + 'spaces/_1d_basis/polynomials.py')],
  technique='random rules/bases against exact moments, an independent Lagrange/edge basis and history independence'),
 dict(id='P02', title='Function calculus and numerical derivatives agree with pointwise calculus',
  statement='Sums, differences, negations, products, inner and cross products and scalings of (time-dependent) scalar, vector and tensor functions, and their gradient, curl, divergence and time derivative, evaluate to the corresponding pointwise mathematical expression, at every time and point. The numerical differentiation helpers approximate the true derivatives and their check methods accept exact and reject wrong derivatives; transfinite mappings, coordinate switchers and geometry helpers meet their defining relations.',
  quant=([I, 'programs'], 'all smooth functions, all operator chains, times and points'),
  why='tests evaluate a handful of fixed functions; a sign or component error in one operator of one wrapper only shows for particular operands',
  files=['components/functions/timePlus3dSpace/wrappers/helpers', 'components/functions/timePlus2dSpace/wrappers/helpers', 'components/numerical', 'components/functions/_2dSpace'],
  mech=[('operator wrappers', 'components/functions/timePlus3dSpace/wrappers'), ('numerical derivatives', 'components/numerical')],
  technique='generated operator programs against numpy evaluation of the expression and exact derivatives'),
 dict(id='P03', title='Objects are isolated: results never depend on other live or dead objects',
  statement='The answer any mesh, space, form, field, gathering or cache object gives depends only on its own inputs and current state: creating, using, changing or deleting other objects (also ones that reuse its memory) and asking the same or other questions before never changes it. Asking the same question twice gives the same answer, and mutating a returned result or an input array afterwards does not alter what is returned next unless the object documents that it shares it.',
  quant=([H, 'programs'], 'all interleavings of creation, use and deletion of objects of the same kinds'),
  why='tests build one object per process and never delete and recreate; caches keyed by identity go wrong only for particular allocation histories',
  files=['components/decorators/memoize', _3 + 'forms/standard', _B + 'fields', _3 + 'mesh'],
  mech=[('memoize decorators', 'components/decorators/memoize/memoize_1.py'), ('id()-keyed caches', _3 + 'forms/standard/_2s/special/helpers')],
  technique='stateful histories of create/use/delete compared with the same question put to a fresh isolated object'),
 dict(id='P04', title='Meshes partition the elements and the element map is a consistent geometry',
  statement='For every structured mesh, layout, element-distribution method and rank count, the mesh elements are distributed as disjoint consecutive blocks that cover all elements, every rank finds the same owner, region and local position of an element, and element sizes and origins tile each region. The element map is symmetric, mapped sides coincide geometrically (up to the period on periodic boundaries), unmapped sides lie on exactly the named mesh boundaries, and boundary ranges list exactly those sides.',
  quant=([I, C], 'all mesh generators, parameters, layouts, distribution methods, rank counts'),
  why='tests use a few fixed meshes and print or check little; wrong neighbours on special layouts, multi-region or periodic corners are not sampled',
  files=[_3 + 'mesh/main.py', _2 + 'mesh/main.py', _3 + 'mesh/elements', _2 + 'mesh/elements', _3 + 'mesh/boundaries', _2 + 'mesh/boundaries', _3 + 'mesh/periodicSetting'],
  mech=[('element distribution', _3 + 'mesh/main.py'), ('element map and boundaries', _3 + 'mesh/elements/main.py')],
  technique='random meshes on 1-4 ranks; global reconstruction of the partition and geometric coincidence of sides as oracle'),
 dict(id='P05', title='Coordinate transformations and their metric quantities are the true derivatives',
  statement='For every region, mesh element, trace element and edge of a structured mesh, the mapping is continuous between neighbours and lies in the domain, the Jacobian matrix is the derivative of the mapping, and determinant, inverse, metric matrices and unit normal vectors are consistent with it, at every evaluation point set and layout. Vectorised and quadrature-specialised evaluations, and the sharing of results between elements of equal metric type, give the same numbers as evaluating each element on its own.',
  quant=([I, C], 'all meshes, element shapes, evaluation point sets'),
  why='tests check single fixed meshes at fixed points; metric-type caching errors only show on meshes mixing element types',
  files=[_3 + 'mesh/elements/coordinate_transformation', _2 + 'mesh/elements/coordinate_transformation', _3 + 'mesh/trace/elements', _2 + 'mesh/trace/elements', _3 + 'mesh/domain/regions/region', _2 + 'mesh/domain/regions/region'],
  mech=[('types_wrt_metric', _3 + 'mesh/elements/element/types_wrt_metric'), ('mapping and Jacobian', _3 + 'mesh/domain/regions/region/interpolations')],
  technique='spectral differentiation of the mapping as independent oracle for all metric quantities on random meshes'),
 dict(id='P06', title='Trace, edge and node elements are a correct skeleton of the mesh',
  statement='Trace, edge and node elements are numbered consecutively and globally consistently over all ranks, every mesh-element side, edge and corner is attached to exactly one of them, two positions share one exactly when they are the same geometric entity (modulo periodicity), and each reports its positions, neighbours, boundary membership and sharing rank truthfully. Counts satisfy the Euler relation of the mesh.',
  quant=([I, C], 'all structured meshes, layouts and rank counts'),
  why='tests sample fixed meshes; a numbering that merges or splits one entity at a multi-region corner or across ranks is missed',
  files=[_3 + 'mesh/trace/elements', _3 + 'mesh/edge/elements', _3 + 'mesh/node/elements', _2 + 'mesh/trace/elements'],
  mech=[('trace element map', _3 + 'mesh/trace/elements/main.py'), ('edge numbering', _3 + 'mesh/edge/elements/main.py'), ('node numbering', _3 + 'mesh/node/elements/main.py')],
  technique='geometric identification of entities gathered from all ranks against the reported numbering'),
 dict(id='P07', title='Global dof numbering identifies exactly the geometrically shared dofs',
  statement='For every standard, trace and node form, hybrid or conforming, every numbering scheme and rank count, the gathering matrix is a bijection onto 0..N-1 in which two local dofs of different elements share a number exactly when they are the same degree of freedom on the shared entity (for hybrid forms: never), with matching position and orientation. Numbers of dofs per element, per rank and globally agree with it, as do the dof finders for elements, sides, boundaries and local positions.',
  quant=([I, C], 'all meshes, spaces, form degrees, hybridity, numbering schemes, rank counts'),
  why='tests check dof counts or hard-coded numbers on one mesh; a transposed dof on one pair of sides keeps counts and only shows with anisotropic degrees',
  files=[_3 + 'forms/standard/base/numbering', _2 + 'forms/standard/base/numbering', _3 + 'forms/trace/base/numbering', _2 + 'forms/trace/base/numbering', 'tools/elementwiseCache/gathering'],
  mech=[('Naive numbering', _3 + 'forms/standard/base/numbering/Naive.py'), ('gathering matrices', 'tools/elementwiseCache/gathering/regular/matrix/main.py')],
  technique='geometric identity of every local dof (location of its carrier) as the oracle for the numbering'),
 dict(id='P08', title='Incidence matrices form an exact discrete de Rham complex',
  statement='Incidence matrices are integer, metric-free and satisfy E(k+1)E(k)=0; the coboundary of a form is the incidence matrix applied to its cochain, as a form of the next degree with the same space, hybridity and continuity. Discretization commutes with differentiation: discretizing the gradient, curl, divergence or rot of a field equals the coboundary of the discretized field.',
  quant=([I, C], 'all meshes, spaces, orientations, fields of the polynomial space or resolved smooth fields'),
  why='tests run a few spaces on one mesh with loose tolerances',
  files=[_3 + 'spaces/base/incidence_matrix.py', _2 + 'spaces/base/incidence_matrix.py', _3 + 'forms/standard/base/coboundary.py'],
  mech=[('incidence matrices', _3 + 'spaces/base/incidence_matrix.py'), ('coboundary', _3 + 'forms/standard/base/coboundary.py')],
  technique='algebraic identity plus commuting diagram over random spaces, meshes and fields'),
 dict(id='P09', title='Reduction and reconstruction are exact on the form spaces',
  statement='Discretizing a field gives exactly its nodal values, line integrals, flux integrals or volume integrals over the dof carriers of every element, and reconstruction is the interpolation consistent with it: reducing a reconstructed form returns its cochain and reconstructing a reduced member of the discrete space returns the field, with the correct pull-back on any curved element. Evaluation grids, ravelled output, element selections, reconstruction matrices and discretization at the current time agree with this.',
  quant=([I, C], 'all meshes, spaces, form degrees, orientations, fields, times and evaluation grids'),
  why='tests look only at a global error norm on a fixed smooth problem, which hides wrong components on unsampled shapes and degrees',
  files=[_3 + 'forms/standard/_0s', _3 + 'forms/standard/_1s', _3 + 'forms/standard/_2s', _3 + 'forms/standard/_3s', _2 + 'forms/standard/_0_form', _2 + 'forms/standard/_1_form', _2 + 'forms/standard/_2_form'],
  mech=[('discretize', _3 + 'forms/standard/_1s/discretize'), ('reconstruct', _3 + 'forms/standard/_2s/reconstruct.py')],
  technique='independent high-order integration over dof carriers and independent basis/pull-back evaluation on random curved meshes'),
 dict(id='P10', title='Mass, wedge and operator matrices equal the integrals they stand for',
  statement='Each element mass matrix equals the L2 inner products of the reconstructed basis forms on that element, so it is symmetric positive definite and reproduces inner products of any two forms; wedge and cross-wedge matrices equal the metric-free integrals of the wedge products. This holds for every curved or affine element, whatever elements share cached results, and independently of the chosen sufficient quadrature degree.',
  quant=([I, C], 'all meshes, spaces, form degrees, orientations, quadrature degrees'),
  why='tests verify the matrices indirectly through one solve; affine shortcuts and caches per metric type are not compared element by element',
  files=[_3 + 'forms/standard/base/operators', _2 + 'forms/standard/base/operators', _3 + 'forms/standard/base/matrices', _2 + 'forms/standard/base/matrices'],
  mech=[('inner products', _3 + 'forms/standard/base/operators/helpers'), ('matrices', _3 + 'forms/standard/base/matrices')],
  technique='independent assembly by reference basis, spectral Jacobian and high-order quadrature'),
 dict(id='P11', title='Form algebra, norms, energies and errors are the integrals of the form',
  statement='Sums, differences, multiples and copies of forms act linearly on their cochains without touching the operands; norms, energies, inner products of two forms and error norms with respect to a field equal the corresponding integrals of the reconstruction (and its derivative) for any rank count. Setting the cochain locally, globally or through element-wise views gives back what was set.',
  quant=([I, 'programs'], 'all forms, coefficients, cochains, fields and rank counts'),
  why='tests only check that errors decrease or match a stored number for smooth cochains on one mesh',
  files=[_3 + 'forms/standard/base', _2 + 'forms/standard/base', _B + 'forms/standard', _3 + 'forms/standard/base/error.py'],
  mech=[('error and do', _3 + 'forms/standard/base/error.py'), ('algebra', _B + 'forms/standard')],
  technique='generated algebra programs and random cochains against an independent quadrature'),
 dict(id='P12', title='Trace forms and trace matrices restrict standard forms to element sides',
  statement='The trace matrix maps the local cochain of a standard form to the cochain of its trace form on all sides, with the documented side signs, and the selective matrices pick exactly the dofs on the wanted sides. Discretizing a field to a trace form gives its values, line or flux integrals on each trace element once, reconstruction of a trace form agrees with the restriction of the reconstructed standard form, and the trace mass matrices equal surface inner products.',
  quant=([I, C], 'all meshes, spaces, trace degrees, hybridity and fields'),
  why='tests check few traces on one mesh and hardly reconstruct',
  files=[_3 + 'forms/trace', _2 + 'forms/trace', _3 + 'spaces/base', _2 + 'spaces/base'],
  mech=[('trace matrices', _3 + 'spaces/base/trace_matrix.py'), ('trace forms', _3 + 'forms/trace/base/main.py')],
  technique='differential comparison of trace forms with standard forms and independent surface integrals'),
 dict(id='P13', title='Edge and local-trace forms agree with the standard forms they restrict',
  statement='0- and 1-edge forms discretize and reconstruct exactly the nodal values and line integrals on element edges, local-trace forms those on element sides, with consistent local and global numbering, matrices and finders. Restricting a discretized standard form to edges or sides gives the same numbers as discretizing directly.',
  quant=([I, C], 'all meshes, spaces, degrees and fields'),
  why='tests cover one space and mesh',
  files=[_3 + 'forms/edge', _3 + 'forms/localTrace'],
  mech=[('edge forms', _3 + 'forms/edge/base/main.py'), ('local trace forms', _3 + 'forms/localTrace/base/main.py')],
  technique='differential comparison with standard forms over random meshes and spaces'),
 dict(id='P14', title='Algebraic dual forms are the mass-matrix image of their primal forms',
  statement='The cochain of an algebraic dual form is the mass matrix applied to the primal cochain and back, dual incidence is the transposed incidence, and dual mass matrices are inverse to the primal ones, element by element and for standard and trace duals. Duality pairing of a dual and a primal form equals the inner product of the primal forms. The dual derivative of a form with its boundary trace is the weak derivative: it reproduces the derivative of polynomials in the spaces exactly, and a boundary condition on a dual trace gives the dofs and dual values of exactly the chosen boundaries.',
  quant=([I, C], 'all meshes, spaces, degrees, cochains'),
  why='tests sample one mesh and one space',
  files=[_3 + 'ADF', _2 + 'ADF', _B + 'ADF'],
  mech=[('dual cochain', _3 + 'ADF/standard/base/cochain'), ('dual incidence', _3 + 'ADF/standard/base')],
  technique='matrix identities over histories of updates of random forms, exact reproduction of polynomial derivatives'),
 dict(id='P15', title='Special trilinear operators equal the integrals they discretize',
  statement='The special (vortex detection, cross product, convection-type) matrices, vectors and multi-dimensional matrices of the forms equal the integrals of the corresponding pointwise products of the reconstructed forms, are antisymmetric where the cross product is, and follow the current cochains of their operands.',
  quant=([I, H], 'all meshes, spaces, operands, updates of the operands'),
  why='tests check one projection on one mesh; operand updates after matrix creation are not exercised systematically',
  files=[_3 + 'forms/standard/_1s/special', _3 + 'forms/standard/_2s/special', _2 + 'forms/standard/_0_form', _2 + 'forms/standard/_2_form/inner/special'],
  mech=[('cross products', _3 + 'forms/standard/_2s/special'), ('2d cross products', _2 + 'forms/standard/_0_form/outer/special')],
  technique='independent quadrature of the trilinear form with random operands and operand histories'),
 dict(id='P16', title='Continuous fields on a mesh obey vector calculus',
  statement='Scalar, vector and tensor fields evaluate their functions at the mapped points of each element at the current time, for every supported function type (standard, boundary-wise, constant). Field algebra, inner and cross products and numerical gradient, curl, divergence, rot and time derivative evaluate to the pointwise calculus of the operand fields, trace and flux versions project on the tangential or normal direction, and errors of the operations do not depend on time changes in between.',
  quant=([I, 'programs', H], 'all fields, operators, meshes, times and evaluation points'),
  why='tests sample fixed functions with one order of operations',
  files=[_3 + 'fields', _2 + 'fields', _B + 'fields'],
  mech=[('field operations', _3 + 'fields/vector/do'), ('numerical calculus', _3 + 'fields/vector/numerical')],
  technique='generated field expressions and time histories against exact derivatives'),
 dict(id='P17', title='Boundary conditions select and set exactly the boundary dofs',
  statement='A boundary condition on a form, for any list of valid boundaries and any analytic or involved-form expression, yields exactly the dofs on those boundaries and the values that discretizing the condition gives there; partial dofs, partial cochains and boundary integrals cover each boundary side once. The result is the same for local and global interpretations and for every rank count.',
  quant=([I, C], 'all meshes, forms, boundary subsets, conditions, rank counts'),
  why='tests use one boundary split and one problem',
  files=[_B + 'forms/base/BC', _3 + 'forms/standard', _2 + 'forms/standard', 'objects/miUsGrid/base/form/base/BC'],
  mech=[('BC interpretation', _B + 'forms/base/BC/interpret')],
  technique='random boundary subsets against geometric selection and full discretization'),
 dict(id='P18', title='Element-wise cached matrices and vectors obey linear algebra',
  statement='Every expression over element-wise sparse matrices and column vectors (sums, differences, products, transposes, inverses, scalar multiples, blocks, concatenations, reductions) evaluates, for each element, to the same dense matrix expression, whatever cache keys, constant or lazily generated data its operands use and whatever was evaluated before. Shapes, block structure and element sets are reported truthfully and operands are never modified.',
  quant=(['programs', H], 'all expressions, operand kinds, cache modes and evaluation orders'),
  why='tests evaluate a few expressions once',
  files=[_W + 'dataStructures/objects/sparseMatrix', _W + 'dataStructures/objects/columnVector', _W + 'dataStructures/operators'],
  mech=[('EWC_SparseMatrix', _W + 'dataStructures/objects/sparseMatrix/main.py'), ('EWC_ColumnVector', _W + 'dataStructures/objects/columnVector/main.py')],
  technique='random expression programs interpreted twice: by the library and by dense numpy'),
 dict(id='P19', title='Assembly through (chained) gathering matrices adds every contribution once',
  statement='Assembling element-wise matrices and vectors through any gathering or chain of gathering matrices yields, summed over ranks, exactly the sum of all local contributions at their global rows and columns; disassembly of a global vector is the inverse gather. Chained gathering matrices number the parts consecutively in each supported chaining, and their finders and ranges agree with that numbering.',
  quant=([I, C], 'all gathering matrices, chains, element matrices and rank counts'),
  why='tests assemble a few systems and check only the solution',
  files=[_W + 'gathering', _W + 'dataStructures/objects/sparseMatrix', _W + 'dataStructures/objects/columnVector', 'components/assemblers.py', 'components/distributors.py'],
  mech=[('assembler', _W + 'dataStructures/objects/sparseMatrix/helpers'), ('chain gathering', _W + 'gathering/regular/chain_matrix')],
  technique='random gatherings and data against a dense scatter-add over all ranks'),
 dict(id='P20', title='Customizations of element-wise systems act as the documented row operations',
  statement='Customizations of element-wise matrices and vectors (identity rows, cleared rows, set entries, strong and weak boundary conditions, off-diagonal constraints) make the assembled system exactly the assembled original with the documented rows replaced, for any sequence of customizations, shared dofs and rank counts. The element-wise data of rows not concerned stay untouched.',
  quant=([H, C], 'all sequences of customizations over random systems'),
  why='tests customize once and solve',
  files=[_W + 'dataStructures/objects/sparseMatrix', _W + 'dataStructures/objects/columnVector'],
  mech=[('matrix customize', _W + 'dataStructures/objects/sparseMatrix/customize.py'), ('vector customize', _W + 'dataStructures/objects/columnVector/customize.py')],
  technique='model-based histories of customizations on a dense assembled model'),
 dict(id='P21', title='Multi-dimensional matrices and Newton solving follow the nonlinear system',
  statement='Element-wise multi-dimensional matrices reduce, with any choice of fixed operands, to the matrices and vectors of the tensor contraction with the current cochains, and their derivative is the sum over the free slots. The nonlinear solver returns a solution of the assembled nonlinear system when it reports convergence, honouring prescribed boundary dofs.',
  quant=([I, H], 'all multilinear operators, operands and nonlinear systems of the supported kind'),
  why='tests solve one nonlinear problem',
  files=[_W + 'dataStructures/objects/multiDimMatrix', _L + 'nonlinearSystem'],
  mech=[('MDM', _W + 'dataStructures/objects/multiDimMatrix/main.py'), ('Newton', _L + 'nonlinearSystem/solve/NewtonRaphson')],
  technique='random tensors against dense einsum, and residual checks of returned solutions'),
 dict(id='P22', title='Distributed global matrices and vectors behave as their dense sums',
  statement='Global matrices and vectors behave as the sum over ranks of their local parts: arithmetic, products, norms, condition numbers, gathering to one rank or to all, conversion between distributed, full and locally-full vectors, row and column adjustments and reported shapes and nnz equal those of the dense sum, for every distribution of the entries over the ranks. Operands are unchanged unless the operation is documented as in-place.',
  quant=(['programs', C], 'all matrices, splits over ranks, operation sequences'),
  why='tests use one split on one rank count',
  files=[_L + 'dataStructures/globalMatrix', _L + 'dataStructures/vectors'],
  mech=[('GlobalMatrix', _L + 'dataStructures/globalMatrix/main.py'), ('vectors', _L + 'dataStructures/vectors')],
  technique='random operation programs on 1-4 ranks against dense numpy'),
 dict(id='P23', title='Linear solvers return solutions of the global system they are given',
  statement='Each solver (direct, GMRES, LGMRES, BiCGSTAB, GCROTmk, TFQMR and Schur-type), serial or parallel, with any preconditioner, initial guess and admissible parameters, returns a vector whose residual meets the tolerance it reports as converged, and reports non-convergence truthfully. Preconditioners apply what they define (Jacobi, block Jacobi, incomplete LU, identity).',
  quant=([I, C], 'all non-singular well-conditioned systems, guesses, parameters, rank counts'),
  why='tests solve fixed small systems',
  files=[_L + 'solvers', _L + 'linearSystem', _L + 'preconditioners'],
  mech=[('GMRES', _L + 'solvers/regular/GMRES'), ('direct', _L + 'solvers/regular/direct')],
  technique='random systems and splits; independent residual of the returned solution'),
 dict(id='P24', title='Saved objects are read back unchanged',
  statement='Saving meshes, spaces, forms (with their cochains), trace and dual forms and lists of them, and reading them back on the same or another number of ranks, yields objects with the same defining parameters, cochain, hybridity, orientation and numbering; forms on one mesh saved one after another share it again. Saving never changes the saved object.',
  quant=([I, C], 'all savable objects and rank counts'),
  why='tests round-trip a few objects',
  files=['root/save.py', 'root/read', _3 + 'forms', _2 + 'forms'],
  mech=[('save', 'root/save.py'), ('read', 'root/read')],
  technique='round-trip of random objects, also across rank counts'),
 dict(id='P25', title='Iterators and runners record each step once and resume where they stopped',
  statement='A simple iterator runs the solver for exactly the steps from its current to its final step, records each step result and time once, writes a result file that equals the recorded table, and a stopped or shut-down run resumed from that file ends with the same table as an uninterrupted run. Parameter runners evaluate each combination once and tabulate it truthfully; csv filers keep the data.',
  quant=([H, 'crash_points'], 'all step counts, shut-down points, rank counts and result values'),
  why='tests run one uninterrupted sequence',
  files=['tools/iterators', 'tools/run', 'tools/filer'],
  mech=[('iterator', 'tools/iterators/base/main.py'), ('runner', 'tools/run')],
  technique='random run lengths with interruptions against the table of an uninterrupted model run'),
 dict(id='P26', title='Exports and discrete fields hold the values of the form they come from',
  statement='Discrete fields and exported grids made from a form or field contain, for each element and grid point, the mapped coordinates and the reconstructed values, in matching order, for any grid, degree and rank count. The structured, portion and restructured views of a discrete field refer to the same data.',
  quant=([I, C], 'all forms, grids and rank counts'),
  why='tests write files and do not read them back',
  files=[_3 + 'discreteDields', _2 + 'discreteFields', _3 + 'forms/standard/base/export', _2 + 'forms/standard/base/export'],
  mech=[('discrete fields', _3 + 'discreteDields'), ('vtk export', _3 + 'forms/standard/base/export')],
  technique='reading back exported data and comparing with independent reconstruction'),
 dict(id='P27', title='Results do not depend on the number of ranks',
  statement='The same program run on any number of ranks gives the same mesh, numbering, cochains, matrices, norms, errors and solutions, up to round-off.',
  quant=([C, S], 'all programs built from the public calls, all rank counts'),
  why='each test runs on one fixed rank count',
  files=['root/config', _3 + 'mesh/main.py', _2 + 'mesh/main.py', _T + 'mesh', _3 + 'forms'],
  mech=[('distribution', _3 + 'mesh/main.py'), ('rank-wise computing', 'root/config')],
  technique='differential runs of one generated program on 1 to 5 ranks'),
 dict(id='P28', title='Hybrid and conforming discretizations solve a problem to the same solution',
  statement='Solving a Poisson-type problem with hybridized forms and Lagrange multipliers gives the same solution as the conforming discretization and satisfies conservation, boundary conditions and the discrete equations exactly; polynomial solutions contained in the spaces are reproduced to round-off.',
  quant=([I, C], 'all meshes, spaces, boundary splits and manufactured solutions'),
  why='tests solve one problem on one mesh and look at an error norm',
  files=[_3 + 'forms', _2 + 'forms', _W + 'dataStructures', _L + 'linearSystem', _T + 'forms'],
  mech=[('blocks, customization, assembly, solve', _W + 'dataStructures/objects/sparseMatrix')],
  technique='end-to-end differential and exact-reproduction runs on random problems'),
 dict(id='P29', title='Unstructured triangular meshes have consistent topology and geometry',
  statement='For every conforming triangulation, cells are distributed once over the ranks, the element map pairs exactly the shared edges with the right orientation, boundary edges are attributed to exactly the boundaries whose range contains them, and the mapping, Jacobian and metric of each triangle (including the collapsed vertex ordering) are consistent with its vertices.',
  quant=([I, C], 'all triangulations, vertex orders, boundary partitions, rank counts'),
  why='tests use fixed sample meshes',
  files=[_T + 'mesh'],
  mech=[('construction', _T + 'mesh/construct'), ('elements', _T + 'mesh/elements')],
  technique='random triangulations written to files against direct geometric computation'),
 dict(id='P30', title='Forms on triangles obey the de Rham and numbering laws',
  statement='Forms on triangular meshes satisfy the same laws as structured ones: discrete exactness and commuting discretization, exact reduction and interpolating reconstruction, mass matrices equal to L2 inner products, numbering that identifies exactly shared dofs with orientation-consistent signs, boundary dofs and conditions, and error norms equal to the integrals.',
  quant=([I, C], 'all triangulations, degrees, orientations, fields'),
  why='tests check convergence on two fixed meshes',
  files=[_T + 'forms', _T + 'space', _T + 'fields'],
  mech=[('triangular forms', _T + 'forms/standard'), ('numbering', _T + 'forms/standard/base/numbering')],
  technique='random triangulations with independent integration and geometric dof identification'),
 dict(id='P31', title='Parallel utilities and generic containers are exact',
  statement='The rank utilities (checks of agreement over ranks, gathering, merging, distribution of work, message-safe splitting) return the same, complete and order-correct result on all ranks for any data; assemblers, distributors, collections, generators and checking helpers do what a direct computation does.',
  quant=([I, C], 'all data and rank counts'),
  why='tests use fixed data',
  files=['root/config', 'components/assemblers.py', 'components/distributors.py', 'components/collections', 'components/generators', 'components/miscellaneous'],
  mech=[('root config', 'root/config'), ('assemblers', 'components/assemblers.py')],
  technique='random data on 1-4 ranks against direct python computation'),
 dict(id='P32', title='Exact solutions satisfy the equations they are built for',
  statement='Every exact-solution object provides fields that satisfy its governing equations (momentum, continuity, definitions of vorticity, flux and source terms, boundary data) pointwise at all times, so that user-provided primary functions determine all derived fields consistently.',
  quant=([I], 'all equation families, parameters, times and points'),
  why='tests use exact solutions as oracles and never check them',
  files=[_3 + 'exactSolutions', _2 + 'exactSolutions', _T + 'exactSolution'],
  mech=[('status classes', _3 + 'exactSolutions')],
  technique='residual of the governing equations by independent differentiation at random points'),
]
