#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (dev tool)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
from props import PROPS
B = 'Bembel/src/'
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=B + w) for n, w in mech],
                             state=[dict(name=n, where=B + w) for n, w in state], observe_at=list(obs), hook_needed=None))
T = []
T.append(p('P01', 'One-dimensional shape functions are exactly the Bernstein basis and derivative',
 'For every supported polynomial degree and every real evaluation point, the one-dimensional ansatz functions equal the Bernstein polynomials of that degree, they sum to one, and the reported derivatives are their exact derivatives. Evaluating a coefficient vector gives exactly the linear combination of these functions, for values and for derivatives.',
 ['inputs'], 'all degrees 0..20 (the library maximum), all real points, all coefficient vectors',
 'Tests compare a few degrees at sample points against a reference recursion with a tolerance; the identity must hold for every degree up to the maximum, every point and every coefficient vector.',
 ['Spline/Bernstein.hpp', 'Spline/Basis.hpp', 'Spline/ShapeFunctions.hpp', 'Spline/Pascal.hpp'],
 [('compile-time recursion over Bernstein coefficients and degree dispatch', 'Spline/Basis.hpp'), ('degree dispatch', 'Spline/ShapeFunctions.hpp')]))
T.append(p('P02', 'Tensor-product basis, gradients, curls and interactions on an element',
 'For every polynomial degree, refinement level and surface point, the quantities the ansatz space adds to an element matrix or vector (scalar, surface-gradient, surface-curl, vector and divergence contributions, for single points and pairs of points) are exactly the tensor-product Bernstein functions, or their derivatives pushed to the surface, multiplied by the given weight. Contributions accumulate onto what is already stored and keep the order of rows and columns in all routines.',
 ['inputs', 'configurations'], 'all polynomial degrees in the checked range, all reference points, all weights, all (invertible) surface parametrisations',
 'Tests only compare assembled potentials with analytic solutions for a few degrees; a wrong transposition or scaling in one routine can be hidden by symmetric test geometries or cancel between routines.',
 ['AnsatzSpace/SuperSpace.hpp', 'Spline/Basis.hpp'],
 [('basis / basisInteraction / gradients / curls / divergence accumulation', 'AnsatzSpace/SuperSpace.hpp')], obs=['SuperSpace public methods']))
T.append(p('P03', 'B-spline evaluation, derivatives and knot utilities',
 'For every knot vector, degree, coefficient array and evaluation point inside the knot range, spline evaluation returns the Cox-de Boor spline value (one- and two-dimensional), and derivative evaluation returns its exact derivative. Knot utilities build open uniform knot vectors of the requested degree and smoothness, report each distinct knot once, locate the span that contains a point (the last one for the right end) and rescale a span affinely to the unit interval.',
 ['inputs'], 'all coefficient values and evaluation points (symbolic), degrees, refinements and knot repetitions enumerated up to stated maxima',
 'Tests compare a few random points in fixed knot vectors with a tolerance.',
 ['Spline/DeBoor.hpp', 'Spline/DeBoorTP.hpp', 'Spline/Knots.hpp', 'Spline/Localize.hpp', 'Spline/Unroll.hpp'],
 [('de Boor recursion', 'Spline/DeBoor.hpp'), ('tensor product evaluation', 'Spline/DeBoorTP.hpp'), ('knot construction', 'Spline/Knots.hpp'), ('span lookup', 'Spline/Localize.hpp')]))
T.append(p('P04', 'NURBS patches with internal knots are reproduced exactly by Bezier pieces',
 'A patch built from control points and knot vectors evaluates, at every reference point, to the NURBS surface these control points and knots define, also when the knot vectors have internal (possibly repeated, non-uniform, direction-dependent) knots. Splitting such a patch along its internal knots yields Bezier patches that, in the documented order, reproduce exactly the corresponding pieces of the surface.',
 ['inputs', 'configurations'], 'all control points and evaluation points (symbolic); knot-vector shapes enumerated',
 'Tests use one or two files and sample points; different knot counts per direction and repeated knots are hardly exercised.',
 ['Spline/Bezierextraction.hpp', 'Spline/Localize.hpp', 'Geometry/Patch.hpp'],
 [('projection to the Bezier space', 'Spline/Bezierextraction.hpp'), ('patch construction and shredding', 'Geometry/Patch.hpp')], [('Bezier control points', 'Geometry/Patch.hpp')]))
T.append(p('P05', 'Patch point, tangents and normal are consistent',
 'At every reference point of every rational Bezier patch the evaluated point is the rational Bezier surface point, the Jacobian columns are the partial derivatives of that point with respect to the two reference coordinates, and the normal is the cross product of the two columns. The combined surface-point evaluation used by assembly reports the same point and derivatives together with the passed reference point and weight.',
 ['inputs', 'configurations'], 'all control points with non-vanishing weight function, all reference points; all polynomial degrees in the checked range, also patches with internal knots',
 'Tests compare a handful of points on one geometry; derivative errors in rational weights vanish for polynomial patches.',
 ['Geometry/Patch.hpp', 'Geometry/SurfacePoint.hpp'],
 [('eval/evalJacobian/evalNormal/updateSurfacePoint', 'Geometry/Patch.hpp')]))
T.append(p('P06', 'Geometry files round-trip',
 'Writing a geometry of Bezier patches to a DAT or IGES file and reading it back gives patches with the same degrees and the same control points and weights up to the documented number of digits, for every patch count and for different degrees in the two directions. Loading a file given by any path (directories with dots included) selects the reader by the file extension and splits patches along internal knots.',
 ['inputs', 'configurations'], 'all control point values and weights (symbolic tokens through the writer and reader); patch counts and degree pairs enumerated',
 'Tests round-trip a single geometry with equal degrees; index transpositions are invisible when both directions have equal sizes or symmetric data.',
 ['Geometry/GeometryIO.hpp', 'Geometry/GeometryIGS.hpp', 'Geometry/Geometry.hpp'],
 [('DAT reader/writer', 'Geometry/GeometryIO.hpp'), ('IGES reader/writer', 'Geometry/GeometryIGS.hpp'), ('suffix dispatch', 'Geometry/Geometry.hpp')]))
T.append(p('P07', 'Element tree refinement, topology and numbering',
 'For every multi-patch geometry and refinement level the element tree has, per patch, 4^M congruent elements that tile the unit square; element ids run through all elements once and agree with the positions reported to users, and the lexicographic reordering used by spline spaces is a bijection. Neighbour relations are symmetric and connect exactly those elements that share an edge in space, including across patch interfaces in any of the eight relative orientations; the vertex list of an element names geometrically equal points equally.',
 ['configurations', 'inputs'], 'all refinement levels up to the stated bound; geometries: single patches, all eight gluing orientations, closed surfaces',
 'Tests only see element trees through solution accuracy on two geometries; most wrong neighbour links do not change these.',
 ['ClusterTree/ElementTree.hpp', 'ClusterTree/ElementTreeNode.hpp', 'ClusterTree/ClusterTree.hpp'],
 [('uniform refinement and edge matching', 'ClusterTree/ElementTree.hpp'), ('element corners and reference points', 'ClusterTree/ElementTreeNode.hpp'), ('orientation check and reordering', 'ClusterTree/ClusterTree.hpp')],
 [('element tree nodes', 'ClusterTree/ElementTreeNode.hpp')]))
T.append(p('P08', 'Enclosing balls of elements and clusters',
 'The midpoint and radius stored for every cluster describe a ball that contains the balls of its children, and for the finest elements a ball through the element vertices, for every position and size of the input balls. The ball enclosing two balls is the smallest one.',
 ['inputs'], 'all ball centres and radii (symbolic), nested configurations included; element trees of the enumerated geometries',
 'No test looks at these values; an undersized ball only makes the compression admissible where it is not, which appears as slow convergence on special geometries.',
 ['util/GeometryHelper.hpp', 'ClusterTree/ElementTree.hpp'],
 [('enclosing ball of two balls', 'util/GeometryHelper.hpp'), ('bottom-up ball computation', 'ClusterTree/ElementTree.hpp')]))
T.append(p('P09', 'Quadrature rules have their advertised exactness',
 'Every available quadrature rule on the unit interval and unit square has nodes inside the domain, and integrates all polynomials up to its advertised degree exactly up to rounding; a container of rules delivers for each index the rule of that index.',
 ['configurations', 'inputs'], 'all rules, all monomials up to the advertised degree',
 'Tests use few rules, and only through other computations with loose tolerances.',
 ['Quadrature/GaussLegendreRule.hpp', 'Quadrature/GaussLegendre.hpp', 'Quadrature/GaussSquare.hpp', 'Quadrature/QuadratureVector.hpp', 'Quadrature/TensorProductQuadratureVector.hpp', 'Quadrature/Cubature.hpp'],
 [('tabulated nodes and weights', 'Quadrature/GaussLegendreRule.hpp'), ('tensor product', 'Quadrature/TensorProductQuadratureVector.hpp')]))
T.append(p('P10', 'Singular and near-field integration of element pairs',
 'For every pair of elements the regularising coordinate changes used for separated, identical, edge-adjacent and vertex-adjacent elements cover the product domain: applied to any integrand they integrate polynomials exactly when the quadrature does, and every sample pair lies in the two elements, with the singular set at the transformed singularity. The classification of a pair (disjoint, identical, common edge, common vertex) with the returned rotations maps the shared edge or vertex of both elements to the reference position for all relative positions.',
 ['inputs', 'configurations'], 'all rotation pairs, all integrand monomials up to the checked degree, all element pairs of the enumerated geometries, symbolic quadrature nodes',
 'Tests check a few integrals on one geometry; only some of the rotation pairs and cases occur.',
 ['DuffyTrick/integrate0.hpp', 'DuffyTrick/integrate1.hpp', 'DuffyTrick/integrate2.hpp', 'DuffyTrick/integrate3.hpp', 'DuffyTrick/integrate4.hpp', 'DuffyTrick/tau.hpp', 'DuffyTrick/compareElements.hpp', 'DuffyTrick/evaluateBilinearForm.hpp', 'DuffyTrick/farFieldQuadratureNodes.hpp'],
 [('regularising transformations', 'DuffyTrick/integrate2.hpp'), ('pair classification', 'DuffyTrick/compareElements.hpp'), ('rotations', 'DuffyTrick/tau.hpp')]))
T.append(p('P11', 'Block partition covers the matrix exactly once and respects admissibility',
 'For every geometry, level and parameter choice the leaves of the block cluster tree partition the full index set of element pairs: every pair is in exactly one leaf, row and column ranges match the clusters, and a leaf is compressed only if the distance condition with the configured parameter holds for its two clusters. The leaf list handed to matrix algebra contains every leaf once.',
 ['configurations', 'inputs'], 'geometries, levels and minimum cluster levels enumerated, admissibility parameter and cluster balls symbolic',
 'Tests see the partition only through the accuracy of a matrix-vector product on one geometry.',
 ['H2Matrix/BlockClusterTree.hpp', 'H2Matrix/TreeLeaf.hpp'],
 [('recursive block partition', 'H2Matrix/BlockClusterTree.hpp'), ('leaf storage', 'H2Matrix/TreeLeaf.hpp')]))
T.append(p('P12', 'Interpolation-based compression is exact for polynomials',
 'For every number of interpolation points and polynomial degree, the one-dimensional interpolation used by the compression reproduces all polynomials of the corresponding degree, the transfer between a cluster and its four children is exact for them, and moments equal the integrals of ansatz functions against the interpolation polynomials. The interpolated kernel entries are the kernel at the mapped interpolation points of both clusters.',
 ['inputs', 'configurations'], 'all evaluation points, all numbers of interpolation points and degrees in the checked range',
 'Tests check one configuration of interpolation points, degree and level.',
 ['H2Matrix/H2Multipole.hpp'],
 [('interpolation nodes, Lagrange evaluation, transfer and moment matrices', 'H2Matrix/H2Multipole.hpp')]))
T.append(p('P13', 'Compressed matrix algebra equals dense algebra',
 'For every vector, the product with a compressed matrix equals the product with the dense matrix it represents (near-field blocks plus moments times interpolated kernel), for one or several vector components, real or complex entries, and for lazily formed sums of compressed matrices; the block reported as dense copy is the same matrix. The product is linear and leaves its operands unchanged.',
 ['inputs', 'configurations', 'histories'], 'all vectors and all leaf contents (symbolic), enumerated tree shapes and component counts',
 'Tests multiply one matrix with a few random vectors and compare with a tolerance.',
 ['H2Matrix/H2Matrix.hpp', 'H2Matrix/H2Multipole.hpp', 'H2Matrix/EigenHelper/H2DenseProduct.hpp', 'H2Matrix/EigenHelper/H2CwiseBinaryOp.hpp'],
 [('matrix-vector product', 'H2Matrix/EigenHelper/H2DenseProduct.hpp'), ('lazy sums', 'H2Matrix/EigenHelper/H2CwiseBinaryOp.hpp'), ('forward/backward transform', 'H2Matrix/H2Multipole.hpp')]))
T.append(p('P14', 'Laplace boundary operators integrate the documented kernels',
 'For every pair of surface points the single layer, double layer, adjoint double layer and hypersingular operators of the Laplace equation add exactly kernel times basis functions times surface measures times quadrature weights to the element matrix, with the Laplace fundamental solution and its normal derivatives. The far-field evaluation of the same operators equals the same kernel without the ansatz functions, and adjoint operators are transposes of each other.',
 ['inputs'], 'all pairs of distinct surface points with arbitrary tangents and weights; polynomial degrees in the checked range',
 'Tests solve one Dirichlet problem per operator on one geometry; errors that scale or cancel on a sphere or act only on one of near and far field can stay within tolerance.',
 ['Laplace/SingleLayerOperator.hpp', 'Laplace/DoubleLayerOperator.hpp', 'Laplace/AdjointDoubleLayerOperator.hpp', 'Laplace/HypersingularOperator.hpp'],
 [('integrand and far-field kernel', 'Laplace/SingleLayerOperator.hpp'), ('normal derivative kernel', 'Laplace/DoubleLayerOperator.hpp'), ('curl-curl form', 'Laplace/HypersingularOperator.hpp')]))
T.append(p('P15', 'Helmholtz boundary operators integrate the documented kernels',
 'For every wavenumber and every pair of surface points the single layer, double layer, adjoint double layer and hypersingular Helmholtz operators add exactly the oscillatory fundamental solution (or its normal derivatives, or the regularised hypersingular form) times basis functions, measures and weights to the element matrix. Near-field and far-field kernels agree, and for wavenumber zero the operators reduce to the Laplace ones.',
 ['inputs'], 'all wavenumbers (complex ones included), all pairs of distinct surface points, all weights',
 'Tests use one wavenumber and one geometry.',
 ['Helmholtz/SingleLayerOperator.hpp', 'Helmholtz/DoubleLayerOperator.hpp', 'Helmholtz/AdjointDoubleLayerOperator.hpp', 'Helmholtz/HypersingularOperator.hpp'],
 [('integrand and far-field kernel', 'Helmholtz/SingleLayerOperator.hpp'), ('gradient kernels', 'Helmholtz/DoubleLayerOperator.hpp'), ('regularised hypersingular form', 'Helmholtz/HypersingularOperator.hpp')]))
T.append(p('P16', 'The electric field integral operator integrates the documented bilinear form',
 'For every wavenumber and every pair of surface points the Maxwell single layer operator adds kernel times tangential vector basis products minus kernel times divergence products over the squared wavenumber, with push-forwards of divergence-conforming functions, to the element matrix. The far-field kernel matrix is the same form expressed in tangential derivatives and divergences.',
 ['inputs'], 'all wavenumbers, all pairs of distinct surface points, all weights; polynomial degrees in the checked range',
 'Tests solve a scattering problem on one geometry for one wavenumber.',
 ['Maxwell/SingleLayerOperator.hpp', 'AnsatzSpace/SuperSpace.hpp'],
 [('integrand, far-field kernel, moments', 'Maxwell/SingleLayerOperator.hpp')]))
T.append(p('P17', 'Potentials evaluate the representation formulas',
 'For every evaluation point off the surface and every density, the single and double layer potentials, the gradient of the Laplace single layer potential and the Maxwell single layer potential return the quadrature sum over all elements of the documented kernel times the density value times surface measure. The result does not depend on the batch of points in which a point is evaluated and is linear in the density.',
 ['inputs'], 'all evaluation points, surface points, densities and wavenumbers',
 'Tests use one analytic solution each with coarse tolerances.',
 ['Potential/DiscretePotential.hpp', 'Potential/Potential.hpp', 'Laplace/SingleLayerPotential.hpp', 'Laplace/DoubleLayerPotential.hpp', 'Laplace/SingleLayerPotentialGradient.hpp', 'Helmholtz/SingleLayerPotential.hpp', 'Helmholtz/DoubleLayerPotential.hpp', 'Maxwell/SingleLayerPotential.hpp'],
 [('potential loop', 'Potential/DiscretePotential.hpp'), ('integrands', 'Laplace/SingleLayerPotential.hpp')]))
T.append(p('P18', 'Right-hand sides test the given data with every basis function',
 'For every data function and every ansatz space the assembled linear form equals the quadrature of the trace of the data (Dirichlet, Neumann, tangential, rotated tangential) against every global basis function. Traces use the outward surface normal and true surface measure.',
 ['inputs', 'configurations'], 'all data values (uninterpreted data function), all surface points and weights, enumerated spaces',
 'Tests use specific smooth functions and tolerances.',
 ['LinearForm/DiscreteLinearForm.hpp', 'LinearForm/LinearForm.hpp', 'LinearForm/DirichletTrace.hpp', 'LinearForm/NeumannTrace.hpp', 'LinearForm/TangentialTrace.hpp', 'LinearForm/RotatedTangentialTrace.hpp'],
 [('assembly loop', 'LinearForm/DiscreteLinearForm.hpp'), ('traces', 'LinearForm/TangentialTrace.hpp')]))
T.append(p('P19', 'Local operators: mass matrices and Laplace-Beltrami',
 'For every geometry the assembled mass matrix is the quadrature of products of basis functions against the surface measure (symmetric, and integrating constants gives the area), and the assembled Laplace-Beltrami matrix is the quadrature of products of surface gradients (symmetric, constants in its kernel).',
 ['inputs', 'configurations'], 'all surface points, tangents and weights; polynomial degrees in the checked range; enumerated spaces',
 'Tests solve one problem on the sphere for each operator.',
 ['Identity/IdentityOperatorBase.hpp', 'Identity/MassMatrixScalarDisc.hpp', 'Identity/MassMatrixScalarCont.hpp', 'LaplaceBeltrami/LaplaceBeltramiOperatorBase.hpp', 'LinearOperator/DiscreteLocalOperator.hpp', 'LinearOperator/LocalOperatorBase.hpp'],
 [('local assembly', 'LinearOperator/DiscreteLocalOperator.hpp'), ('integrands', 'LaplaceBeltrami/LaplaceBeltramiOperatorBase.hpp')]))
T.append(p('P20', 'Dense and compressed assembly of boundary operators',
 'For every operator, geometry and space, the assembled dense matrix is the projection of the element-pair integrals onto the global space, each element pair contributing exactly once with the right row and column blocks. The compressed assembly yields the same near-field entries, and its far field is the interpolation of the same operator.',
 ['inputs', 'configurations', 'schedules'], 'operators with uninterpreted kernels, enumerated geometries, levels and degrees',
 'Tests compare solutions to analytic references only; blocks swapped between symmetric operators or elements cannot be seen.',
 ['LinearOperator/DiscreteOperator.hpp', 'LinearOperator/LinearOperatorBase.hpp', 'DuffyTrick/evaluateBilinearForm.hpp', 'H2Matrix/H2Matrix.hpp'],
 [('dense assembly loop', 'LinearOperator/DiscreteOperator.hpp'), ('compressed assembly', 'H2Matrix/H2Matrix.hpp')]))
T.append(p('P21', 'Conforming spline spaces are glued correctly',
 'For every geometry, degree, knot multiplicity and level, the global space for continuous forms contains exactly the functions continuous across all edges, the space for divergence-conforming forms exactly those with matching normal components, and the discontinuous space all piecewise functions: the transformation matrix from global to element coefficients has full column rank, the expected dimension and gives traces that agree on both sides of every interface. On every patch the global functions are the B-splines of the requested degree and smoothness.',
 ['configurations', 'inputs'], 'geometries with all relative patch orientations, degrees, multiplicities and levels enumerated; coefficients and edge points symbolic',
 'Tests check few geometries and dimension counts; most orientation combinations and knot repetitions do not occur.',
 ['AnsatzSpace/Projector.hpp', 'AnsatzSpace/Glue.hpp', 'AnsatzSpace/AnsatzSpace.hpp'],
 [('B-spline to Bernstein projector', 'AnsatzSpace/Projector.hpp'), ('edge identification', 'AnsatzSpace/Glue.hpp')]))
T.append(p('P22', 'Function evaluation from global coefficients',
 'For every coefficient vector and every patch point, evaluating a discrete function (values, divergence, on scalar, continuous and divergence-conforming spaces) returns the sum of global coefficients times pushed-forward global basis functions at that point, through either interface (patch number with point, or element with point). Replacing the coefficient vector or copying the evaluator gives the evaluation of the new or same function.',
 ['inputs', 'configurations', 'histories'], 'all coefficient vectors and points, enumerated spaces',
 'Tests only evaluate via potentials and plots.',
 ['AnsatzSpace/FunctionEvaluator.hpp', 'AnsatzSpace/FunctionEvaluatorEval.hpp', 'ClusterTree/ClusterTree.hpp', 'util/surfaceL2error.hpp'],
 [('evaluation', 'AnsatzSpace/FunctionEvaluatorEval.hpp'), ('element lookup and longvec', 'AnsatzSpace/FunctionEvaluator.hpp')]))
T.append(p('P23', 'Spherical harmonics and their derivatives',
 'For every degree and every point of the unit sphere the expansion in real spherical harmonics equals the sum of coefficients times the orthonormal real spherical harmonics; the solid-harmonic routines equal the same sum with the radial scaling on all of space, and gradient and derivative routines return the gradient of the corresponding value routine.',
 ['inputs'], 'all points, all coefficients, degrees in the checked range',
 'Tests only use them inside the periodic kernel with one fixed degree and tolerance.',
 ['util/Sphericals.hpp'],
 [('recursions', 'util/Sphericals.hpp')]))
T.append(p('P24', 'Exported files contain the data',
 'Files written for export (point, surface and domain visualisation, text matrices and vectors, tables) contain exactly the points, connectivity and data values handed in, in the documented order, and reading a printed matrix gives the matrix back.',
 ['inputs', 'configurations'], 'all data values (symbolic tokens), enumerated sizes',
 'No test reads the exported files.',
 ['IO/print2file.hpp', 'IO/Logger.hpp', 'IO/VTKDomainExport.hpp', 'IO/VTKSurfaceExport.hpp', 'IO/VTKPointExport.hpp'],
 [('export routines', 'IO/VTKSurfaceExport.hpp'), ('text printing', 'IO/print2file.hpp')]))
T.append(p('P25', 'Copies of library objects behave like the original and are independent',
 'A copy-constructed, copy-assigned, moved or default-constructed-and-initialised geometry, ansatz space, evaluator or tree gives the same results as the original; modifying a copied geometry leaves the original unchanged.',
 ['histories', 'configurations'], 'all public copy, move and assignment operations followed by any use',
 'Tests always construct objects in place.',
 ['Geometry/Geometry.hpp', 'AnsatzSpace/SuperSpace.hpp', 'AnsatzSpace/AnsatzSpace.hpp', 'AnsatzSpace/FunctionEvaluator.hpp', 'ClusterTree/ClusterTree.hpp', 'ClusterTree/ElementTree.hpp', 'H2Matrix/H2Matrix.hpp', 'H2Matrix/TreeLeaf.hpp', 'util/GenericMatrix.hpp'],
 [('copy and move members', 'AnsatzSpace/SuperSpace.hpp')]))
T.append(p('P26', 'Parallel assembly is independent of the thread schedule',
 'Assembling a dense or compressed boundary operator, a potential or a right-hand side with any number of threads and any interleaving gives the result of the sequential execution up to the order of summation.',
 ['schedules'], 'all thread counts and interleavings of the parallel assembly loops',
 'Tests run with one schedule and tolerate small differences.',
 ['LinearOperator/DiscreteOperator.hpp', 'H2Matrix/H2Matrix.hpp', 'Potential/DiscretePotential.hpp', 'H2Matrix/EigenHelper/H2DenseProduct.hpp'],
 [('OpenMP loops', 'H2Matrix/H2Matrix.hpp')]))
T.append(p('P27', 'The homogenised Laplace operator uses the periodic kernel',
 'For every pair of surface points the homogenised Laplace single layer operator and potential integrate the modified kernel, that is the sum of the Laplace fundamental solution over the 27 neighbouring lattice cells plus the quadratic term, plus the solid-harmonics series of the computed degree and coefficients. The coefficients minimise the deviation of values and normal derivatives from periodicity over the collocation points of the cell faces, the mean of the kernel over the cell vanishes, and the mean deviation from periodicity is at most the requested precision.',
 ['inputs', 'configurations'], 'all surface points, tangents and weights (symbolic); every solution vector of the least squares problem (symbolic); the three degrees the precision selects',
 'Tests check one precision and one geometry with a tolerance that is coarser than the requested precision.',
 ['HomogenisedLaplace/Coefficients.hpp', 'HomogenisedLaplace/SingleLayerOperator.hpp', 'HomogenisedLaplace/SingleLayerPotential.hpp'],
 [('collocation of the periodic kernel', 'HomogenisedLaplace/Coefficients.hpp'), ('kernel evaluation', 'HomogenisedLaplace/SingleLayerOperator.hpp')]))
NA = {}
DEFNA = 'contracts for this property are not finished'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for t in T: f.write(json.dumps(t) + '\n')
checks = []; na = []
for t in T:
    i = t['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
            technique='contract-based deductive verification: requires/ensures contracts on the real headers, instantiated with a symbolic scalar and discharged path by path (exact normal forms + z3)',
            level=c.get('level', 'proof'), level_note=c.get('note', '')))
    else: na.append(dict(property=i, reason=NA.get(i, DEFNA)))
m = dict(version=1, setup_cmd='python3 engine/overlay.py --selftest', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
