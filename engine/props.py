# property id -> harnesses and options
PROPS = {
    'P01': dict(harness=['shape1d'], note='all degrees the library supports; all points and coefficients'),
    'P03': dict(harness=['spline'], note='points and coefficients symbolic; degrees, refinements and knot repetitions enumerated'),
    'P04': dict(harness=['bezier'], note='knot-vector shapes enumerated; control points, weights and evaluation points symbolic'),
    'P05': dict(harness=['patcheval'], note='orders with product up to 20; control data and points symbolic'),
    'P06': dict(harness=['geomio'], note='patch counts and orders enumerated; data symbolic through the text'),
    'P07': dict(harness=['tree'], level='exploration', note='bounded: the contracts are executed on enumerated geometries and levels (no symbolic input except the reference map)'),
    'P08': dict(harness=['balls'], note='enclosing ball of two balls proved for all balls; trees of enumerated geometries'),
    'P09': dict(harness=['quad'], note='weights and nodes as the exact binary values of the literals in the tables; orders enumerated'),
    'P02': dict(harness=['basis2d'], note='points, weights, tangents and stored values symbolic; degrees enumerated up to the library maximum (interactions: all up to 9, then 13 and 20 on a subset of the entries)'),
    'P14': dict(harness=['ops_laplace'], note='surface points, tangents and weights symbolic; degrees 0..4 and levels 0..6 enumerated'),
    'P15': dict(harness=['ops_helmholtz'], note='surface points, tangents, weights and complex wavenumber symbolic; degrees 0..3 and levels 0..6 enumerated'),
    'P16': dict(harness=['ops_maxwell'], note='surface points, tangents, weights and complex wavenumber symbolic; degrees 1..3 and levels 0..6 enumerated'),
    'P18': dict(harness=['linform'], note='surface points, quadrature weights and boundary data symbolic (data per point unconstrained); degrees 0..4 (integrands), assembled forms on enumerated geometries, levels and knot repetitions'),
    'P10': dict(harness=['duffy'], note='integrands, points and geometry data symbolic; quadrature degrees, levels and patch pairs enumerated; exactness decided for all polynomials up to total degree 3'),
    'P17': dict(harness=['potentials'], note='surface points, tangents, weights, coefficients and evaluation points symbolic; degrees, levels and geometries enumerated'),
    'P19': dict(harness=['locops'], note='surface points, tangents and weights symbolic; degrees, levels and geometries enumerated'),
    'P11': dict(harness=['bct'], note='admissibility parameter and the balls of selected clusters symbolic; geometries and levels enumerated'),
    'P12': dict(harness=['fmm'], note='interpolation nodes, evaluation points, far field and transform matrices symbolic; degrees, levels and point counts enumerated'),
    'P20': dict(harness=['assembly'], note='integrals and right-hand sides symbolic; degrees, levels, repetitions and geometries enumerated; library/* contracts executed only (bounded); agree/*: compressed close to dense for every library operator (bounded)'),
    'P13': dict(harness=['h2prod'], note='moments, transfer matrices, leaf blocks and vectors symbolic (in turns, see DESIGN); degrees, levels, geometries and vector dimensions enumerated'),
    'P21': dict(harness=['conform'], note='coefficients and points symbolic; degrees, levels, repetitions and patch configurations enumerated'),
    'P22': dict(harness=['funeval'], note='coefficients and evaluation points symbolic; degrees, levels and geometries enumerated'),
    'P23': dict(harness=['sphericals'], note='points and coefficients symbolic; degrees enumerated'),
    'P24': dict(harness=['io'], note='all written data symbolic through the text; sizes and formats enumerated'),
    'P25': dict(harness=['values'], note='data and points symbolic after every single operation; all histories of two operations on three objects executed (bounded)', bounded=['histories of length two: executed, not proved']),
    'P26': dict(harness=['parallel'], opts={'parallel': {'omp': True}}, note='results under six schedules equal the sequential result for all symbolic data; disjointness of the frames of iterations by tracking every memory access (bounded: enumerated configurations)', trusted=['engine/omp_rt.cpp: replacement of the OpenMP runtime (fibers, schedule policies, access tracking)', 'gcc -fopenmp lowering of the pragmas'], bounded=['disjoint frames: every access to memory in the parallel regions tracked on enumerated configurations']),
    'P27': dict(harness=['homogenised'], note='points, tangents, weights and the solution of the least squares problem symbolic; degrees 4 and 8 (12 executed)', trusted=['contract of ColPivHouseholderQR::solve: returns a minimiser of the residual'], bounded=['deviation from periodicity below the precision: executed for the three degrees the library can select, on a grid of the faces', 'degree 12 of the series: executed']),
}
