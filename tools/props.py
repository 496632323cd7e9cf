"""Source of properties.jsonl and MANIFEST.json (tools/make.py writes both)"""

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=list(observe), state=list(state)))


TOPO = 'pycomplex/topology/'

P('C01', 'A complex built from cells is exactly their oriented face lattice',
  'A topology built from simplices or cubes has as its k-elements exactly the distinct k-faces of the given cells, each once, with the given cells as top elements in the given order and orientation. '
  'The signed incidence matrices link every element to exactly its faces, with the sign that follows from the orientation of both (an edge runs from its -1 vertex to its +1 vertex), so that the product of consecutive matrices vanishes. '
  'Inputs whose vertices are not numbered 0..n-1, or cubes whose shared faces are not glued as cubes, are refused with an error.',
  ['inputs'], 'every list of cells forming a complex of any dimension, with any corner order and any vertex numbering',
  'the tests build a handful of fixed meshes; the construction depends on parities of permutations of every corner order and on integer widths of indices, which are only exhausted by enumeration',
  [TOPO + 'simplicial.py', TOPO + 'cubical.py', TOPO + 'primal.py', TOPO + 'util.py', 'pycomplex/math/combinatorial.py'],
  [('from_simplices / from_cubes', TOPO + 'simplicial.py, ' + TOPO + 'cubical.py'), ('topology_matrix', TOPO + 'util.py')],
  'bounded exhaustive enumeration of cell complexes, executed on the library and compared with a reference face lattice',
  'all complexes within the stated bounds (vertices, cells, corner orders) are executed; beyond them nothing is claimed; the reference lattice (pure python, determinant based) is trusted',
  ['TopologySimplicial.from_simplices', 'TopologyCubical.from_cubes', 'matrices', 'elements', 'incidence'])

P('C02', 'Orientability is decided correctly and fix_orientation orients',
  'A complex is reported as oriented exactly when every two cells that share a face induce opposite orientations on it. '
  'Fixing the orientation of an orientable complex gives a consistently oriented complex with the same cells, flipping only whole cells; for a complex that cannot be oriented it raises ValueError. '
  'This holds for complexes with several components, isolated cells and any starting orientation.',
  ['inputs'], 'every pseudo-manifold complex, orientable or not, with any assignment of orientations to its cells',
  'the tests orient a few connected meshes; the answer comes from a SAT encoding over all cells whose corner cases (loose cells, several components, odd bands) appear only for particular shapes',
  [TOPO + 'base.py', TOPO + 'simplicial.py', TOPO + 'cubical.py', TOPO + 'util.py'],
  [('relative_parity / is_oriented', TOPO + 'base.py'), ('fix_orientation', TOPO + 'simplicial.py, ' + TOPO + 'cubical.py')],
  'bounded exhaustive enumeration of complexes and of all orientation assignments, against a graph 2-colouring model',
  'all complexes and flip patterns within the bounds; the 2-colouring reference is trusted',
  ['relative_parity', 'is_oriented', 'fix_orientation'])

P('C03', 'Boundary and interior of a complex are exactly what they should be',
  'The boundary of an oriented complex consists of exactly the faces that belong to a single cell, all oriented outward alike, refers back to the elements of the complex it came from, and itself has no boundary; it is None exactly when there are no such faces. '
  'The boundary and interior selectors pick complementary sets of elements: those that lie on the boundary, and those that do not. '
  'Asking for the boundary of a complex that is not oriented raises ValueError.',
  ['inputs'], 'every oriented (and mis-oriented) complex under every relabelling of its vertices',
  'tests look at one or two open meshes; index mapping and orientation of the boundary depend on numbering and on corner orders',
  [TOPO + 'primal.py', TOPO + 'util.py'],
  [('boundary, is_closed, selector_interior, selector_boundary', TOPO + 'primal.py')],
  'bounded exhaustive enumeration of oriented complexes, relabellings and flips, against a reference model',
  'all catalogue complexes within the bounds under all listed relabellings; reference model trusted',
  ['boundary', 'is_closed', 'selector_interior', 'selector_boundary'])

P('C04', 'The dual of an oriented complex is a closed dual chain complex',
  'The dual of an oriented complex has one n-element for every primal (N-n)-element, plus one for every boundary (N-1-n)-element, and its matrices are the transposed primal matrices extended by the dual of the boundary. '
  'It is always a chain complex in which every dual edge has two ends, and it has the homology of the primal. '
  'Its interior and boundary selectors pick the corresponding parts; a complex that is not oriented has no dual and raises ValueError.',
  ['inputs'], 'every oriented manifold complex, open or closed, in any dimension, under any numbering and corner order',
  'the tests check the dual of a few meshes in two dimensions; signs of the glueing between interior and boundary depend on dimension, corner order and numbering',
  [TOPO + 'dual.py', TOPO + 'primal.py'],
  [('Dual / ClosedDual', TOPO + 'dual.py'), ('dual', TOPO + 'primal.py')],
  'bounded exhaustive enumeration of oriented complexes with their duals; chain complex, homology and incidence against a reference model',
  'all catalogue complexes within the bounds; homology computed by a trusted rank routine',
  ['dual.matrices', 'dual.matrices_2', 'dual.selector_interior', 'dual.selector_boundary'])

P('C05', 'Derived incidence, components and subsets agree with the face lattice',
  'Averaging operators weigh exactly the vertices (or top cells) incident to an element, uniformly and summing to one, and the degree is the number of incident top cells, on a complex as well as on its dual and without any limit on that number. '
  'Component labels, connectedness, splitting into components (largest first) and manifoldness reflect which cells are linked through shared faces. '
  'A selected subset is the sub-complex of exactly the chosen cells with unchanged order and orientation, refers back to its parent, and a selection of the wrong length raises ValueError.',
  ['inputs'], 'every complex (also non-manifold, disconnected or with many cells around a vertex) and every subset of its cells',
  'the tests exercise some of these on one mesh each and never with high degrees, pinched vertices or all subsets',
  [TOPO + 'base.py', TOPO + 'primal.py', TOPO + 'util.py', 'pycomplex/sparse.py'],
  [('accumulated/averaging operators, degree, label_connections, regions_per_vertex', TOPO + 'base.py'), ('select_subset, split_connected_components, find_correspondence', TOPO + 'primal.py')],
  'bounded exhaustive enumeration of complexes and of all subsets of their cells, against a set-based reference model',
  'all complexes and subsets within the bounds; set containment reference trusted',
  ['averaging_operators_0', 'averaging_operators_N', 'degree', 'label_connections', 'select_subset'])

P('C06', 'Subdivisions and products are valid complexes of the same space',
  'Every subdivision (fundamental, simplicial, cubical, loop) and every product is again a complete face lattice whose cells are exactly the ones the scheme prescribes: one per flag, per face and centre, per vertex of a cell, four per triangle, or one per pair of cells. '
  'Subdividing preserves homology (and so Euler characteristic and orientability) and, where the scheme says so, orientation; products multiply element counts. '
  'This holds for any sequence of subdivisions.',
  ['inputs', 'operation sequences'], 'every sequence of applicable subdivisions starting from any complex, open or closed, orientable or not, in any numbering',
  'the tests subdivide a few regular meshes once; faults appear for particular corner orders, dimensions or after several steps',
  [TOPO + 'simplicial.py', TOPO + 'cubical.py'],
  [('subdivide_*', TOPO + 'simplicial.py, ' + TOPO + 'cubical.py'), ('product', TOPO + 'cubical.py')],
  'bounded exhaustive exploration of all subdivision sequences up to a depth from every catalogue complex, checked in every state against a flag-based reference model',
  'all operation sequences up to depth 2-4 from all catalogue complexes; homology by a trusted rank routine',
  ['subdivide_fundamental', 'subdivide_simplicial', 'subdivide_cubical', 'subdivide_loop', 'product'])

P('C07', 'Transfer operators relate a complex and its subdivision correctly',
  'The transfer matrices between a complex and its cubical or loop subdivision map every fine element to the coarse element of the same dimension that contains it, and nothing else, also across several levels of subdivision. '
  'They commute with the incidence matrices of both levels, on the primal and on the dual side, so that chains restrict consistently. '
  'Parent references of subdivided cells point at the cell they came from.',
  ['inputs', 'operation sequences'], 'every complex and number of subdivision levels, for any corner order and numbering',
  'tests compare single matrices on one mesh; wrong signs or wrong blocks only matter for particular corner orders and levels',
  [TOPO + 'simplicial.py', TOPO + 'cubical.py', TOPO + 'util.py'],
  [('transfer_matrices, transfer_operators', TOPO + 'simplicial.py, ' + TOPO + 'cubical.py')],
  'bounded exhaustive enumeration of complexes, corner orders and levels against a containment model',
  'all catalogue complexes and up to three levels; containment model trusted',
  ['transfer_matrices', 'transfer_operators', 'parent'])

P('C08', 'Subdivision, smoothing and copying place vertices where they should be',
  'A subdivided complex has its vertices at the positions of the elements they came from; smoothing moves every vertex to the mean of the centroids of the lowest-dimensional crease elements around it, and leaves vertices alone that touch none. '
  'The operator forms of subdivision and smoothing give the same positions as applying them directly, with any creases. '
  'Transformations, copies, casts, subsets, boundaries and products keep positions and weights attached to the right vertices, and impossible casts are refused.',
  ['inputs'], 'every complex, embedding and set of creases in any combination of dimensions',
  'tests look at pictures of a few smooth surfaces; crease combinations and open or loose parts are not tried',
  ['pycomplex/complex/base.py', 'pycomplex/complex/cubical.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py'],
  [('smooth, smooth_operator, copy', 'pycomplex/complex/base.py'), ('subdivide_cubical, subdivide_operator, product, casts', 'pycomplex/complex/cubical.py'), ('subdivide_loop, subdivide_loop_operator', 'pycomplex/complex/simplicial/euclidian.py')],
  'bounded exhaustive enumeration of complexes and crease sets, direct and operator form against a reference model',
  'all catalogue complexes with all crease sets of one or two elements, full and mixed; linear in positions so a unit embedding decides all embeddings',
  ['smooth', 'smooth_operator', 'subdivide_operator', 'subdivide_loop_operator', 'copy', 'select_subset'])

P('C09', 'Primal and dual metrics are the true measures, and the hodges follow',
  'The primal metric of every element is its length, area or volume, and the dual metric is the signed measure of its dual element: what the circumcentric (or, with weights, power) diagram assigns to it, so that the products of primal and dual metric add up to the binomial multiple of the total volume. '
  'Hodge operators are the ratios of these; the duals clipped to the boundary are included. '
  'is_well_centered and is_pairwise_delaunay tell exactly whether all fundamental domains, respectively all dual edges, are positive; none of this depends on numbering, corner order or position, and regular complexes obey the same.',
  ['inputs'], 'every embedded complex of any dimension, with any weights, numbering and position',
  'tests check the sum of metrics of a few well-centered meshes; signs and weights only matter for obtuse or weighted elements and boundaries',
  ['pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/regular.py', 'pycomplex/complex/base.py', TOPO + 'primal.py', TOPO + 'simplicial.py'],
  [('metric, unpack_metrics, is_pairwise_delaunay, is_well_centered', 'pycomplex/complex/simplicial'), ('metric', 'pycomplex/complex/regular.py')],
  'bounded exhaustive enumeration of embedded complexes on lattices and in the catalogue against a reference summing signed orthoschemes',
  'all lattice meshes and catalogue complexes within the bounds, with scalings, translations and weights; floating point results to stated tolerances',
  ['primal_metric', 'dual_metric', 'hodge_DP', 'is_pairwise_delaunay', 'is_well_centered'])

P('C12', 'Geometric primitives satisfy their defining equations for every input',
  'Volumes, normals, circumcentres, barycentric coordinates, angles, solid angles, pseudo inverses, null spaces and closest rotations are what their names say, for every simplex, box or matrix: of any size, anywhere in space, flat or full, of any corner order, weighted or not. '
  'They accept any number of leading batch dimensions and treat every member of a batch independently of the others.',
  ['inputs'], 'every non-degenerate (and, where a limit exists, degenerate) simplex, box or matrix, at any scale, position and batch shape',
  'tests evaluate a few random simplices around the origin; conditioning, signs and batch interactions only appear in particular configurations',
  ['pycomplex/geometry/euclidian.py', 'pycomplex/geometry/spherical.py', 'pycomplex/geometry/regular.py', 'pycomplex/math/linalg.py'],
  [('circumcenter_barycentric, unsigned_volume, segment_normals', 'pycomplex/geometry/euclidian.py'), ('triangle_area_from_corners, circumcenter', 'pycomplex/geometry/spherical.py'), ('pinv, null, orthonormalize', 'pycomplex/math/linalg.py')],
  'bounded exhaustive enumeration of lattice simplices and small integer matrices against exact integer arithmetic',
  'all lattice configurations within the bounds under five scalings and translations; floating point results to stated tolerances',
  ['circumcenter_barycentric', 'unsigned_volume', 'triangle_area_from_corners', 'pinv', 'orthonormalize'])

P('C10', 'Points are located and forms sampled exactly in simplicial complexes',
  'Picking a simplex returns one that contains the query point, with its barycentric coordinates, whenever the point lies in the complex; whatever hint is given, and also for disconnected, non-convex, weighted or spherical complexes, as long as they are pairwise Delaunay. '
  'Picking a dual cell returns the vertex of least (power) distance; picking a fundamental domain returns one containing the point, with coordinates in the order of its elements, for meshes connected by faces; it refuses meshes too uneven for it. '
  'Sampling primal forms reproduces linear functions; sampling dual forms interpolates their values at dual vertices and stays within their range; arguments are not modified.',
  ['inputs'], 'every (weighted) Delaunay mesh, connected or not, flat or spherical, every query point and every hint',
  'tests pick ten random points in uniform meshes; wrong answers occur close to faces of uneven, weighted or disconnected meshes',
  ['pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/base.py'],
  [('pick_primal, pick_dual, pick_fundamental, sample_primal_0, sample_dual_0', 'pycomplex/complex/simplicial/base.py'), ('power_center', 'pycomplex/complex/simplicial/spherical.py')],
  'bounded exhaustive enumeration of Delaunay meshes, their sub-meshes, weights, hints and lattice of queries, against exhaustive search over elements',
  'all meshes within the bounds and all queries of a lattice; queries between lattice points are not covered; tolerances 1e-6 to 1e-5',
  ['pick_primal', 'pick_dual', 'pick_fundamental', 'sample_primal_0', 'sample_dual_0'])

P('C11', 'Points are located and forms sampled exactly in regular complexes',
  'Picking in a regular complex returns a cube, dual cell or part of a cube that contains the query point, with its position along the axes of that cube, whatever hint is given, for cubes of any size, listed in any corner order, with cubes missing. '
  'Sampling primal forms reproduces multilinear functions, and dual forms are interpolated multilinearly between the elements of each part; neither extrapolates beyond the complex. Any trailing dimensions are supported and arguments are not modified.',
  ['inputs'], 'every set of axis aligned cubes of a tensor grid in 1-4 d, every corner order, every query point and hint',
  'tests pick random points in one uniform grid; hints, uneven cubes and other corner orders are not tried',
  ['pycomplex/complex/regular.py', TOPO + 'cubical.py'],
  [('pick_primal, pick_fundamental, pick_dual, sample_primal_0, sample_dual_0', 'pycomplex/complex/regular.py')],
  'bounded exhaustive enumeration of grids, sub-grids, spacings, corner orders, hints and a lattice of queries, against exhaustive search over cubes',
  'all grids within the bounds and all queries of a lattice finer than the cubes; averages over dual elements are decided by C05',
  ['pick_primal', 'pick_dual', 'pick_fundamental', 'sample_primal_0', 'sample_dual_0'])

P('C13', 'Surface measures, clipping, extrusion and STL files describe the same surface',
  'Areas, angles, cotangent weights, normals, enclosed volume and center of mass of a triangle mesh (or plane curve) are those of the surface its triangles make up, wherever it is placed and however corners are ordered; vertex areas add up to the area. '
  'Clipping by a plane keeps exactly the part of the surface on one side; splitting keeps all of it; triangles keep their orientation and neighbours stay connected. '
  'Extruding an oriented mesh with a boundary to a displaced copy gives a closed, oriented surface enclosing what lies between, and a mesh without one is refused; saving to and loading from STL gives the same triangles.',
  ['inputs'], 'every triangle mesh in two or three dimensions, every clipping plane, every displacement',
  'tests clip one mesh by one plane and print one center of mass; solids away from the origin, planes through vertices and other corner orders are not tried',
  ['pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/cubical.py', 'pycomplex/geometry/euclidian.py'],
  [('clip, extrude, volume, center_of_mass, save_STL', 'pycomplex/complex/simplicial/euclidian.py'), ('ComplexCubical1Euclidian2.volume', 'pycomplex/complex/cubical.py')],
  'bounded exhaustive enumeration of triangle meshes, clipping planes and extrusions, compared by their moments with an independent polygon clipper',
  'all meshes within the bounds with the listed family of planes and displacements; surfaces are identified by area, moments up to degree two and outline',
  ['clip', 'extrude', 'volume', 'center_of_mass', 'vertex_areas', 'compute_edge_ratio', 'save_STL', 'load_STL'])

ST = 'pycomplex/stencil/'

P('C14', 'Stencil operators are the exterior calculus of a periodic grid',
  'On a periodic grid of any shape and dimension, the stencil derivatives are the coboundary operators of the grid: forward differences with the sign of appending the direction of the difference, dual derivatives are their exact transposes, and twice the same derivative is zero. '
  'Averages of 0-forms are means over the vertices of each element, hodges scale with the ratio of dual to primal volume and can be inverted; sampling a 0-form interpolates multilinearly and periodically at any point. '
  'All this holds for any numeric type and memory layout of the form, leaves arguments unmodified and gives the same answer every time.',
  ['inputs'], 'every grid shape in any dimension, every form of any type or layout, every sample point inside or outside of the period',
  'tests try one or two even shapes with float forms; signs, wrap-around, sizes one and odd, integer types and strided arrays are not exercised',
  [ST + 'topology.py', ST + 'complex.py', ST + 'util.py', ST + 'operator.py'],
  [('StencilTopology.primal, dual, averaging_operators_0', ST + 'topology.py'), ('StencilComplex.hodge, sample_0', ST + 'complex.py'), ('generate', ST + 'util.py')],
  'bounded exhaustive enumeration of grid shapes and all unit forms, against dense reference matrices',
  'all shapes within the bounds, all impulses for small ones, one generic form per type and layout; single precision',
  ['StencilTopology.primal', 'StencilTopology.dual', 'averaging_operators_0', 'StencilComplex.hodge', 'StencilComplex.sample_0'])

P('C15', 'Expressions of stencil operators mean what their matrices mean',
  'Sums, products, transposes, inverses and simplifications of stencil operators act as the corresponding expressions of matrices, whatever the operators and however they are nested: simplifying an expression, dropping zeros and identities, merging diagonals or cancelling successive derivatives never changes what it computes. '
  'Singular diagonals are refused an inverse, operators that do not fit are refused a product, and the conversion to dense matrices or scipy linear operators agrees with the operator and its transpose.',
  ['inputs'], 'every expression built from any operators, in any nesting',
  'tests compose a few operators; simplification rules interact only in particular nestings and for particular diagonals',
  [ST + 'operator.py', ST + 'util.py'],
  [('ComposedOperator.simplify, CombinedOperator.simplify, DiagonalOperator.simplify', ST + 'operator.py')],
  'exhaustive enumeration of all expressions up to a number of leaves, each executed on all unit vectors and compared with dense matrices',
  'all well typed expressions up to 3 (4) leaves over the catalogue of operators, on grids of up to six vertices',
  ['StencilOperator.__add__', 'StencilOperator.__mul__', 'transpose', 'simplify', 'inverse', 'to_dense', 'aslinearoperator'])

P('C16', 'Block arrays, block operators and systems act like block matrices',
  'Arrays of blocks add, multiply, copy, slice, and convert to and from a single vector block by block, whatever the shapes of the blocks. Block operators act, transpose, multiply and simplify like the block matrix of their blocks, square or not. '
  'The canonical system of a grid is the symmetric block matrix of hodges and derivatives; each of its subsystems, its normal equations of either kind and the diagonal thereof are those of the corresponding submatrix.',
  ['inputs'], 'every shape and number of blocks, every pattern of operators in blocks, every grid shape and every subsystem',
  'tests use one array of two blocks and two even grids; equal shapes, three blocks, rectangular operators and odd grids differ',
  [ST + 'block.py', ST + 'linear_system.py', ST + 'operator.py'],
  [('BlockArray, BlockOperator', ST + 'block.py'), ('System', ST + 'linear_system.py')],
  'exhaustive enumeration of block shapes, of patterns of operators in blocks and of subsystems, against dense block matrices',
  'all arrays of up to 3 (4) blocks, operators of up to 2x2 (2x3) blocks over the catalogue, all subsystems on the listed grids',
  ['BlockArray', 'BlockOperator', 'System.canonical', 'System.normal', 'BlockOperator.diagonal'])

P('C17', 'Stencil multigrid transfers and cycles do what they stand for',
  'Coarsening takes (smoothed) means of the fine elements that make up a coarse one and refining is its transpose up to a factor; both keep constants, refining is exact at vertices and commutes with the derivative. '
  'A v-cycle is smoothing, coarse grid correction and smoothing on every level with a solve on the coarsest; it never moves an exact solution. '
  'Relaxation of the diffusion equations is that of their (normal) matrix and never increases the residual, coarser equations and transfers of their vectors are those of the coarsened fields, and solving minimizes the residual, also with more equations than unknowns.',
  ['inputs'], 'every even grid shape and form, every hierarchy of equations and initial guess, every pattern of material fields',
  'tests run a few problems of smooth fields and look at plots; wrong levels, signs or weights only slow convergence down',
  [ST + 'topology.py', ST + 'complex.py', ST + 'multigrid.py', ST + 'equation.py', ST + 'diffusion.py', ST + 'linear_system.py'],
  [('transfers', ST + 'topology.py'), ('coarsen, refine, smoothers', ST + 'complex.py'), ('v_cycle, solve_v_cycle, solve_full_cycle', ST + 'multigrid.py'), ('jacobi, NR_BLOCK_GS, NE_BLOCK_GS, solve', ST + 'equation.py'), ('Diffusion', ST + 'diffusion.py')],
  'exhaustive enumeration of grid shapes, hierarchies and patterns of fields; cycles compared with their error propagation matrices and call traces, relaxation with dense linear algebra',
  'all shapes, levels and patterns within the bounds; single precision; convergence rates are not claimed',
  ['transfers', 'coarsen', 'refine', 'v_cycle', 'solve_full_cycle', 'Diffusion.residual', 'Diffusion.smooth', 'Diffusion.coarse'])

P('C18', 'Sparse and blocked arrays act like the dense arrays they stand for',
  'Sparse n-d arrays (lists of entries, possibly repeated) convert to and from, add, multiply and contract like the dense arrays they stand for; all matching pairs of indices are found, each once. '
  'Arrays and matrices of blocks add, multiply, transpose, slice, merge and split like the array that results from joining their blocks, whatever the sizes of the blocks; diagonals and norms likewise. '
  'The helpers for sparse matrices (zeros, ones, normalization, inverse of a diagonal) agree with dense linear algebra, and no operation changes its arguments.',
  ['inputs'], 'every list of entries, every partition into blocks, every sparse format',
  'tests multiply one example each and print the result; repeated entries, items without a match and equal block sizes need particular inputs',
  ['pycomplex/sparse.py', 'pycomplex/block.py'],
  [('Sparse, multi_indices, normalize_l1', 'pycomplex/sparse.py'), ('DenseBlockArray, SparseBlockMatrix', 'pycomplex/block.py')],
  'exhaustive enumeration of small sparse arrays and of partitions into blocks, against dense arrays',
  'all entry lists, partitions and formats within the bounds; einsum and nested blocks are not claimed',
  ['Sparse', 'multi_indices', 'normalize_l1', 'DenseBlockArray', 'SparseBlockMatrix'])

P('C19', 'Velocities are recovered from the fluxes of dual one-forms',
  'On every oriented, pairwise Delaunay simplicial complex and on every regular one, the velocity of a dual 1-form at each interior dual vertex is the vector in the plane of its cell whose flow through the faces of the cell fits the given fluxes best, '
  'each flux scaled by the metric of its face; so the differences of a linear potential give back its gradient exactly, with its sign. Fluxes along the boundary are ignored, velocities at boundary dual vertices are zero, any further axes of the form are kept, the form is not changed; '
  'meshes that are not pairwise Delaunay are refused.',
  ['inputs'], 'every mesh in any dimension and of any codimension, every flux, every numbering of corners',
  'tests only plot the velocities of one mesh; a sign or a face listed in another order does not show',
  ['pycomplex/complex/base.py', 'pycomplex/geometry/euclidian.py'],
  [('dual_flux_to_dual_velocity', 'pycomplex/complex/base.py')],
  'bounded exhaustive enumeration of meshes and all unit fluxes, against dense least squares per cell and linear potentials',
  'all meshes within the bounds, all unit fluxes; on spheres the metric of the complex is taken for granted (C09)',
  ['dual_flux_to_dual_velocity'])

P('C20', 'Complexes on the sphere measure, refine and overlap as on the sphere',
  'Lengths and areas of the primal and dual cells of a well centered complex on a circle or sphere are those of arcs and spherical polygons, scaled by its radius; dual cells cover it exactly once; anything else is refused. '
  'Refining keeps vertices on the sphere, the radius, the orientation and the area of every parent, and places new vertices at the centers of elements; boundaries and casts keep vertices, radius and weights. '
  'The dual transfer between a complex and its loop subdivision holds the areas of overlap of their dual cells.',
  ['inputs'], 'every complex on the sphere, open or closed, whatever its radius, orientation and numbering of corners',
  'tests only plot these complexes; the test of overlaps is skipped as broken',
  ['pycomplex/complex/simplicial/spherical.py', 'pycomplex/geometry/spherical.py', 'pycomplex/complex/simplicial/base.py'],
  [('metric, subdivide_loop, multigrid_transfer_dual', 'pycomplex/complex/simplicial/spherical.py'), ('triangle_area_from_corners', 'pycomplex/geometry/spherical.py'), ('subdivide_fundamental', 'pycomplex/complex/simplicial/base.py')],
  'bounded exhaustive enumeration of complexes on the sphere, against solid angles and clipped spherical polygons',
  'all complexes within the bounds; no metric beyond two dimensions, no overlap of weighted complexes',
  ['ComplexSpherical.metric', 'subdivide_loop', 'subdivide_fundamental', 'multigrid_transfer_dual', 'boundary', 'as_euclidian', 'as_spherical'])

P('C21', 'Generators produce the meshes they promise',
  'Simplices, cubes, grids, cross polytopes, the icosahedron and its refinements, the 600-cell, circles and cylinders have the promised number of elements of every degree, sizes, angles, position and radius; all their cells are distinct, fit together and are oriented alike. '
  'Meshes generated from random points are Delaunay: they fill the cube exactly with simplices that have volume, contain its boundary lattice, and cover the sphere by the hull of their points. Relaxation moves these points to the weighted means of the circumcenters around them, until the promised number of rounds or quality is reached; whatever the random numbers.',
  ['inputs'], 'every size, dimension and refinement, every outcome of the random numbers',
  'tests plot one random mesh; degenerate simplices, sizes and orientations do not show',
  ['pycomplex/synthetic.py'],
  [('n_simplex, n_cube_grid, n_cube_dual, icosahedron, hexacosichoron, circle, cylinder, delaunay_cube, optimal_delaunay_sphere', 'pycomplex/synthetic.py')],
  'exhaustive enumeration of sizes, and of the outcomes of the random number generator from a lattice, against counting formulas, exact geometry and the empty sphere criterion',
  'all sizes and point sets within the bounds; convergence of the relaxation is not claimed, nor the absence of slivers in three dimensions beyond the listed ones',
  ['n_simplex', 'n_cube_grid', 'n_cube_dual', 'icosahedron', 'icosphere', 'hexacosichoron', 'circle', 'cylinder', 'delaunay_cube', 'optimal_delaunay_sphere'])

P('C22', 'Vertex weights are those that center and balance the duals',
  'The excess of a dual edge is the signed squared distance between the circumcenter of a cell and that of each of its faces; the choices of weights are functions of the shape alone: one step towards equal excess, towards circumcenters at the barycenters, or a quarter of the mean squared edge for the parent vertices of fundamental domains. '
  'They follow renumbering, rigid motions and scaling, vanish on symmetric meshes, never increase the distance they are to reduce, center planar fundamental domains, and leave the mesh itself unchanged; weights are chosen once. '
  'Sums over the corners of cells reach the right vertices and faces, lifting turns powers into distances, and the exhaustive search returns a simplex that contains the point.',
  ['inputs'], 'every simplicial complex in any dimension and of any codimension, on the sphere, and of fundamental domains',
  'tests only plot optimized meshes; a sign, a face listed elsewhere or a dependence on numbering does not show',
  ['pycomplex/complex/simplicial/base.py'],
  [('dual_edge_excess, optimize_weights, optimize_weights_metric, optimize_weights_fundamental, remap_boundary_N, remap_boundary_0, weights_to_offsets, augment, pick_primal_brute', 'pycomplex/complex/simplicial/base.py')],
  'bounded exhaustive enumeration of meshes, against an own evaluation of the equations cell by cell and metamorphic relations',
  'all meshes within the bounds; improvement is judged in first order, and for tetrahedra only where the system is positive',
  ['dual_edge_excess', 'optimize_weights', 'optimize_weights_metric', 'optimize_weights_fundamental', 'remap_boundary_N', 'remap_boundary_0', 'weights_to_offsets', 'augment', 'pick_primal_brute'])

P('C23', 'No query changes a mesh, and no result depends on what was asked before',
  'Whatever is asked of a mesh, its topology, its dual or a stencil equation, in whatever order: each attribute and method gives what it gives on a fresh object, the arguments, the results handed out before and everything remembered stay as they were, and the object itself does not change. '
  'Operations on a mesh that was derived from another (subdivided, copied, cut, its boundary) leave the source alone, and give the same when repeated.',
  ['histories'], 'every sequence of operations on every kind of mesh and equation',
  'tests ask each object one thing; a shared array that is changed in place shows only in a later query',
  ['pycomplex/complex/base.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/regular.py', 'pycomplex/complex/cubical.py', 'pycomplex/topology/base.py', 'pycomplex/topology/primal.py', 'pycomplex/stencil/equation.py'],
  [('all cached properties and methods', 'pycomplex/complex/base.py'), ('all cached properties and methods', 'pycomplex/topology/base.py'), ('Equation, NormalSmoothEquation', 'pycomplex/stencil/equation.py')],
  'exhaustive enumeration of operation sequences on the real objects, against fresh objects',
  'all ordered pairs (triples for some) of the operations found by inspection, with one set of arguments each, and runs of all operations in two orders; changing results from outside is the affair of the caller',
  ['BaseComplex', 'BaseTopology', 'Diffusion'])

P('C24', 'Multigrid transfers on cubical meshes and the iterative solvers are exact',
  'The multigrid transfers between a cubical complex and its parent relate each fine element to the coarse elements it lies in, smoothed by I - L / max(eigenvalues of L) with the k-laplacian L, once more for each higher order of coarse element that the fine one extends from. '
  'Conjugate gradients solve every positive (semi)definite system within the subspace that is left by the given projection, from any initial guess; minres solves every symmetric system that has a solution, definite or not, shifted or not. '
  'Neither changes its arguments.',
  ['inputs'], 'every cubical complex; every symmetric system, guess and constraint',
  'the test of the transfers prints them, and nothing tests the solvers; early termination shows only for indefinite or singular systems',
  ['pycomplex/complex/cubical.py', 'pycomplex/solvers.py'],
  [('multigrid_transfers', 'pycomplex/complex/cubical.py'), ('solve_cg, solve_minres', 'pycomplex/solvers.py')],
  'exhaustive enumeration of cubical complexes, and of small symmetric systems with right hand sides, guesses and constraints, against dense linear algebra',
  'all complexes and systems within the bounds; systems with bad conditioning beyond laplacians of small grids are not claimed',
  ['multigrid_transfers', 'solve_cg', 'solve_minres'])
