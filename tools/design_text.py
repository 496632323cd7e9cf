"""Hand written parts of DESIGN.md (tools/design.py puts them together with what the checks state about themselves)"""

HEAD = """# Model checking pycomplex

pycomplex is a library of discrete exterior calculus: it builds complexes of cells (simplices, cubes, stencils of
periodic grids), derives their topology and duals, gives them positions and metrics, subdivides, picks and samples
them, and supplies operators, block matrices and multigrid on top. It is sequential, pure in intent (results are
functions of their arguments; caches are the only state) and has no files, threads or crash points to speak of. What its users rely on
are *algebraic and geometric laws that must hold for every mesh, numbering, corner order, orientation, position and
sequence of operations*; what the tests do is plot a handful of meshes.

## The technique

Every property is decided by **bounded exhaustive exploration of the real code** (explicit state, stateless: each
member of a finite space is executed on the library in the working tree of /repo, nothing is sampled, and nothing is
abstracted away from the implementation). A check is a module `mc/cXX.py` with a number of *spaces*. A space
is a complete enumeration within stated bounds of

* initial states: all complexes within a bound (all sets of cells on n labels up to isomorphism; all subsets of a grid;
  all point sets of a lattice; all corner orders, labels, orientations; all shapes of a periodic grid), and
* histories: all sequences of operations up to a depth (subdivision sequences in C06, refinement levels in C07 and
  C17, expressions of operators in C15, orders of queries in C23),

and each visited state is compared with an **independent reference model**: small, slow, separately written
python / numpy (set based face lattices with determinants for signs, rank computations over the rationals for
homology, exact integer geometry, sums of signed orthoschemes, polygon clipping, exhaustive search over all
elements, dense matrices). No part of the library is used by a reference, apart from where the text below says so. The model is
thereby bound to the code by construction: every model state is replayed against the implementation in the same run
(`traces_validated_against_impl` counts these comparisons).

`mc/harness.py` is the explorer. It runs every case of every space of the tier over 8 worker processes, counts distinct states
(canonical hash), transitions (operations executed on the implementation) and comparisons, refuses to pass when a space is
empty or when an outcome that a space must reach (`expect`: for example "refused", "not manifold", "non-convex") was
never reached, gives every case a time limit, and writes a replay file per violation (simplest case first; replay with `./run.sh CXX --replay FILE`).
A case which raises an exception is a violation unless the property says it is refused.
All checks share `mc/gen.py` (enumeration of complexes and their isomorphism classes), `mc/ref.py` (face lattice, orientation, homology) and `mc/topo.py`.

`./run.sh CXX` runs from a scratch directory that it makes and removes, with `PYTHONPATH` at /repo; python is interpreted, so
the working tree is what is run and there is nothing to build. No hooks in /repo are needed (MANIFEST `hooks` is absent): everything observed is public.
`VERIF_SEED` does not matter, as nothing is random (functions of numpy.random that generators call are replaced by enumerated
outcomes, see C21; where a linear form needs "generic" values they are fixed).

### Floating point

Topology and stencils are compared exactly. Geometry is compared to stated tolerances relative to the size of the mesh.
Tolerances were set from the error analysis of the operation (usually 1e-9, 1e-6 near singular shapes), and all
spaces are run with several scales, translations and rotations so that a tolerance that is not scale invariant shows up.
The spaces avoid only what is ill-posed (a point exactly on a face belongs to either side: both answers are accepted).

### Why this reaches what tests cannot

A test fixes one numbering, one corner order and one orientation of one mesh; nearly all defects found here (list
below) need a particular *combination*: a dimension, the parity of a corner order, the first or last element of a list, a piece of
mesh that is not connected, an odd size, a type of number, a crease with negative signs. Exhausting a small scope visits all of
these combinations. What a small scope cannot show is behaviour that depends on *how many* and *how large*, and both are explored on their own:
spaces called `large` (`mc/large.py`) build meshes with more elements than 8 and 16 bit indices can count, from tiles whose results are known from the small
spaces, in several numberings; spaces called `units` (`mc/scales.py`) repeat every quantity of a mesh in seven units of length from 2^-40 to 2^40 (powers
of two, so that scaling is exact) and require the power of the unit that it should scale with, so that no absolute tolerance can hide; spaces called `arrays` make and ask the same meshes with the same numbers in other arrays (rows
or columns first, with gaps, backward, read only, other byte order, lists, every integer type), and require the same answers.
"""

NOTES = {
'C01': """Oracle: the face lattice as sets of vertices with orientations from determinants of corner permutations (cubes: signed axis permutations).
Checked per case: number and identity of elements per dimension, given cells unchanged, ascending canonical corners, signs of all incidences, d∘d = 0, and refusal of malformed input (gaps in labels, degenerate cells, cubes that are not glued as cubes in 24 ways).
`check_chain` itself is tested as a decision procedure by single sign mutations of correct matrices.""",
'C02': """Oracle: 2-colouring of the graph of cells by relative orientation. All 2^n orientations are enumerated for n up to 6 (9) cells; Möbius bands, Klein bottles and projective planes are in the catalogue and must be refused.""",
'C03': """Oracle: faces with one cell, induced orientation by determinants; the `parent_idx` of every element of the boundary is checked against vertex sets, and orientation of all its lower elements against the parent (needed by the dual).""",
'C04': """Oracle: transposed matrices extended by the boundary; dual edges must have two ends, d∘d = 0, and homology ranks of dual chain complex equal those of the primal. One alarm was false: in one dimension d∘d has no pair of shapes to tell primal from dual, and the check now types products by degree, not by shape.""",
'C05': """Oracle: containment of vertex sets. Fans of up to 300 cells cross int8.""",
'C06': """State machine: state = topology, transitions = {cubical, barycentric, simplicial, loop, coface subdivision} where they apply; all sequences up to the depth are executed. Oracle: flags of the coarse lattice give expected cells and their adjacency; Euler number, homology, orientability, boundary and chain complex are invariants in every state.""",
'C07': """Oracle: carrier of each fine element (smallest coarse element containing it), tracked by coordinates in the coarse mesh; transfers must commute with the coboundary (chain maps) and map constants to constants.""",
'C08': """The result of a linear operation on vertex positions is decided completely by its action on unit vectors, so each mesh is embedded in R^n by its own vertices ("unit embedding"): one run decides all embeddings.""",
'C09': """Oracle: sum over flags of signed orthoschemes (product of signed heights between consecutive circumcentres / power centres), each computed by its own linear solve.""",
'C10': """Oracle: exhaustive search over all elements with exact barycentric solve. All hints are tried for all queries. Queries form a lattice that includes vertices, edges, and exterior points. False alarm corrected: fundamental picking was first claimed for all pairwise Delaunay meshes, also those in several pieces; the code descends over faces by design, and the statement now says "connected by faces" (for other meshes wrong domains are listed as known findings, since the code does not refuse them).""",
'C11': """Oracle: exhaustive search over cubes, multilinear interpolation written out.""",
'C12': """Oracle: exact integers: Cayley-Menger determinants, fractions for circumcentres, Gram determinants; spherical: solid angles by Oosterom-Strackee in high precision; matrices: Moore-Penrose equations.""",
'C13': """Oracle: own polygon clipper in exact half-space order; surfaces are identified by area, vector area and all moments up to degree two plus outlines. Clipping planes through vertices are included. False alarms corrected: outlines were compared by rounded coordinates (rounding boundary), and triangles of zero area produced on the plane are allowed.""",
'C14': """Oracle: dense coboundary of the torus grid, written from index arithmetic. All unit forms of all small shapes decide the linear operators completely.""",
'C15': """Leaves are compared with their matrices first; then every well typed expression (sum, product, transpose, scaling, power, simplification, conversion to scipy) must act as the matrix expression on all unit vectors.""",
'C16': """Oracle: dense block matrices; includes symmetric/canonical forms of systems, subsystems by range and by selection, and solve-free operations (rhs, residual, vectors split/merged).""",
'C17': """Oracle: dense transfers from hat functions; V/W/F cycles are compared with their error propagation matrices, and the trace of calls per level with the recursion of each cycle; relaxation with dense linear algebra. `formulations` covers the systems with more equations than unknowns.""",
'C18': """Oracle: dense arrays; entries may be repeated, blocks may be of equal or broadcastable sizes.""",
'C19': """Oracle: least squares per cell from all its fluxes (dense); for closed fluxes of linear potentials the gradient is known exactly.""",
'C20': """Oracle: solid angles, arcs, and overlaps of dual cells by clipping spherical polygons against great circles.""",
'C21': """Calls to numpy.random are intercepted and answered from an enumerated lattice of outcomes, so that all outcomes within bounds are executed. Oracle: counting formulas, exact geometry, empty circumsphere. The first version claimed absence of slivers for any three-dimensional outcome; Delaunay does not give that (now excluded, two inputs listed as findings since `delaunay_cube` promises usable meshes).""",
'C22': """Oracle: excess of dual edges over their ends evaluated cell by cell; optimality by first order conditions. False alarm corrected: simplices with aspect > 300 have circumcentres snapped to their plane by a documented ratio. The docstring of `optimize_weights_fundamental` promises strictly well-centered meshes; that fails for planar meshes with uneven edges and in 3d, and only what the method's own equations say is claimed.""",
'C23': """State = everything reachable from the object (frozen deeply: arrays, matrices, nested objects); transitions = all public operations found by inspection. Every ordered pair (thorough: triples) is executed on the real object; every result must equal that on a fresh object, and arguments must stay as they were. This decides stale caches, aliasing and in-place modification, with no list of suspicious places.""",
'C24': """Oracle: containment model of C07, dense laplacians and eigenvalues; residuals for solvers. For systems without a solution minres (here as in scipy) does not settle, and nothing is claimed.""",
}

TAIL = open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'design_tail.md')).read()
