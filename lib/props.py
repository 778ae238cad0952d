#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib/mito/"
P = []


# a place in the library, or in the repository when it starts with a slash
def at(f):
    return f[1:] if f.startswith("/") else L + f


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, na=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[at(f) for f in files], mechanism=[dict(name=n, where=at(w)) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=L + c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, na, note))


p("C01", "Reference counts of shared handles equal the number of live owners",
  "At every point of any history of creating, copying, moving, assigning (including to itself or to another handle of the same resource), nulling and destroying shared handles, the reference count reported for a resource equals the number of live handles that denote it. A moved-from or default handle is null, null handles can be copied and assigned, and every non-null handle keeps denoting the resource it was created from.",
  ["histories", "inputs"], "every history of handle operations over several handles and resources, and every count the resource may start from",
  "The tests run a few fixed three-line sequences; aliasing, self-assignment and null handles combine in histories no fixed sequence covers.",
  ["utilities/SharedPointer.h", "utilities/SharedPointer.icc", "utilities/Shareable.h", "utilities/Shareable.icc"],
  [("copy/move constructors and assignments", "utilities/SharedPointer.icc"), ("intrusive count", "utilities/Shareable.icc")],
  [("reference count", "number of outstanding handles", "utilities/Shareable.h")], ["SharedPointer::references", "SharedPointer::is_nullptr", "SharedPointer::id"])

p("C02", "Segmented storage never moves, overlaps or loses a live element",
  "In any history of insertions and erasures a live element keeps its address and its value, distinct live elements never share storage, and a slot is handed out again only after its element was erased. The reported size is the number of live elements, and the capacity is a multiple of the segment size that grows only when no erased slot is available and never shrinks.",
  ["histories", "inputs"], "every insert/erase history over every segment size within the bound, with arbitrary element values",
  "The tests check capacities and addresses on one hand-written sequence with one segment size.",
  ["utilities/SegmentedAllocator.h", "utilities/SegmentedVector.h", "utilities/Repository.h"],
  [("slot recycling queue and segment growth", "utilities/SegmentedAllocator.h"), ("emplace/erase", "utilities/SegmentedVector.h"), ("emplace/erase", "utilities/Repository.h")],
  [("available locations", "erased slots waiting for reuse", "utilities/SegmentedAllocator.h")])

p("C03", "Traversal of segmented containers visits exactly the live elements once",
  "Whatever was inserted and erased before, iterating a segmented container visits every live element exactly once, in storage order, and never an erased one; pre- and post-increment advance to the same next element. Positional access returns the element stored in that slot.",
  ["histories"], "every insert/erase history and segment size within the bound, including empty containers, full segments and erased first or last elements",
  "The tests iterate over three or four fixed patterns of erased elements.",
  ["utilities/SegmentedContainerIterator.h", "utilities/SegmentedAllocatorIterator.h", "utilities/SegmentedAllocator.h", "utilities/SegmentedVector.h"],
  [("skipping of invalid elements", "utilities/SegmentedContainerIterator.h"), ("segment jumping", "utilities/SegmentedAllocatorIterator.h")])

p("C04", "Every stored element is constructed and destroyed exactly once",
  "Over the whole life of a segmented container - insertion, erasure, slot reuse, moving the container and destroying it - every element that is constructed is destroyed exactly once, and all memory obtained is returned exactly once. No access goes outside live memory.",
  ["histories"], "every history of insertions, erasures and container moves, ended by destruction, within the bound",
  "Tests observe values, not construction and destruction balance or memory safety.",
  ["utilities/SegmentedVector.h", "utilities/Repository.h", "utilities/SegmentedAllocator.h"],
  [("container destructors", "utilities/Repository.h"), ("container destructors", "utilities/SegmentedVector.h"), ("segment release", "utilities/SegmentedAllocator.h")])

p("C05", "Permutation sign is the parity of the permutation",
  "For any arrangement of distinct elements against a reference arrangement, the sign is +1 exactly when the number of inversions is even, it flips under every transposition and multiplies under composition. The number of swaps it counts really sorts the data into the reference order, the comparison of contents ignores order, and arrangements of different elements are rejected.",
  ["inputs"], "all pairs of arrangements of up to six arbitrary distinct integers, and arbitrary non-matching data",
  "The tests try a handful of three-element arrays.",
  ["math/combinatorics.h"], [("swap counting sort", "math/combinatorics.h"), ("parity", "math/combinatorics.h")])

p("C06", "Simplices are unique and carry the orientation of their vertex order",
  "Asking a topology twice for the simplex on the same vertices yields the same simplex; the orientation flips exactly when the vertex order changes by an odd permutation, and both orientations share one unoriented footprint. Every simplex reports exactly the vertices and edges it was built from.",
  ["inputs", "histories"], "all vertex orders of segments, triangles and tetrahedra, over several simplices that share faces",
  "The tests build one or two simplices in a fixed vertex order; whether sharing holds depends on the order of creation.",
  ["topology/Topology.icc", "topology/SimplexFactory.h", "topology/OrientedSimplexFactory.h", "topology/Simplex.h", "topology/OrientedSimplex.h", "math/combinatorics.h"],
  [("composition maps", "topology/SimplexFactory.h"), ("orientation maps", "topology/OrientedSimplexFactory.h")])

p("C07", "Flipping an orientation is an involution that keeps everything else",
  "Flipping a simplex changes its sign and nothing else: it has the same vertices and footprint, its boundary is the negated boundary, and flipping twice gives back the very same simplex. A simplex and its flip exist at most once each.",
  ["inputs", "histories"], "every simplex of order 1 to 3, every vertex order, flips repeated and interleaved with construction",
  "One test flips one simplex once.",
  ["topology/Topology.icc", "topology/OrientedSimplexFactory.h", "topology/utilities.h"],
  [("flip", "topology/Topology.icc"), ("orientation map", "topology/OrientedSimplexFactory.h")])

p("C08", "Simplices are closed: faces chain head to tail and boundaries have no boundary",
  "Every simplex that can be constructed has a closed boundary: each face of its boundary is shared with opposite orientation, so the boundary of the boundary vanishes, and the order of vertices it reports is consistent with its orientation. Compositions that do not close up are rejected.",
  ["inputs"], "all orders and orientations in which segments or triangles can be offered as the boundary of a triangle or tetrahedron",
  "The tests offer one closed and very few open compositions.",
  ["topology/Simplex.h", "topology/SimplexFactory.h", "topology/utilities.h", "topology/Topology.icc"],
  [("construction sanity check", "topology/Simplex.h"), ("boundary construction", "topology/Topology.icc")])

p("C09", "Erasing simplices leaves exactly the simplices still in use",
  "After any sequence of insertions and erasures the topology contains exactly the simplices that belong to a remaining simplex or are held by a client, none twice, and no surviving simplex loses a face. Erasing and re-inserting never resurrects stale data or touches freed memory.",
  ["histories"], "every history of inserting and erasing elements that share faces, in both footprint layouts",
  "The tests erase one fixed element out of one fixed mesh.",
  ["topology/Topology.icc", "topology/OrientedSimplexFactory.h", "topology/SimplexFactory.h", "topology/utilities.h", "utilities/Repository.h"],
  [("erase with cleanup of unused parts", "topology/Topology.icc"), ("erase of a footprint", "topology/SimplexFactory.h")])

p("C10", "Flipping a diagonal keeps the quadrilateral and swaps only the diagonal",
  "Flipping the diagonal of two adjacent triangles gives two triangles that cover the same quadrilateral: same four vertices, same outer edges with the same orientation, opposite diagonal. Flipping again restores the original pair.",
  ["inputs"], "every vertex order and orientation of two triangles that share an edge",
  "One test flips one fixed pair.",
  ["topology/FlipDiagonal.h", "topology/FlipDiagonal.icc"], [("opposite vertices and re-meshing", "topology/FlipDiagonal.icc")])

p("C11", "Forms are multilinear and obey vector-space arithmetic",
  "A one-form built from a vector and a metric evaluates to the metric product and is linear in its argument; sums, differences, negation and scaling of forms act pointwise on their values. Contracting only some arguments and the remaining ones later gives the same value as contracting all at once. The named basis vectors and matrices are those of the standard basis.",
  ["inputs"], "all vectors, symmetric metrics and scalars with components in the stated box, in 2 and 3 dimensions",
  "The tests are static assertions on unit basis vectors, where most wrong terms vanish.",
  ["tensor/Form.h", "tensor/forms_algebra.h", "tensor/factories.h", "tensor/tensor.h", "tensor/api.h"],
  [("form contraction", "tensor/Form.h"), ("algebra", "tensor/forms_algebra.h"), ("one-form factories", "tensor/factories.h")])

p("C12", "The wedge product is alternating and equals the determinant of the pairings",
  "The wedge of two or three one-forms evaluated on vectors equals the determinant of the matrix of pairings; it changes sign when arguments or factors are exchanged and vanishes when two coincide. Wedging step by step gives the same form as wedging all factors at once, and scalar factors pull out.",
  ["inputs"], "all one-forms and vectors of dimension 2 and 3 with components in the stated box",
  "The tests evaluate wedges of unit basis forms on unit basis vectors only.",
  ["tensor/wedge.h", "tensor/forms_algebra.h"], [("wedge overloads", "tensor/wedge.h")])

p("C13", "The tensor product of forms factors over its arguments",
  "The tensor product of two or three one-forms evaluated on vectors is the product of the individual evaluations, is linear in each factor and each argument, and partial contractions in any slot agree with the full evaluation.",
  ["inputs"], "all one-forms and vectors in the stated box and every choice of contracted slots",
  "The tests use basis vectors, for which factors and slots cannot be told apart.",
  ["tensor/tensor.h", "tensor/Form.h", "tensor/forms_algebra.h"], [("tensor product", "tensor/tensor.h")])

p("C14", "The stress of every material is the derivative of its energy",
  "For each material and every admissible deformation gradient, each stress component equals the partial derivative of the strain energy with respect to the corresponding deformation component. At the undeformed state the energy of every material and the stress vanish.",
  ["inputs"], "every deformation gradient in a neighbourhood of the identity and every admissible set of material parameters in the stated box",
  "The tests evaluate one deformation with one set of parameters by finite differences with a tolerance.",
  ["materials/Gent.h", "materials/LinearElastic.h"], [("energy and stress", "materials/Gent.h"), ("energy and stress", "materials/LinearElastic.h")])

p("C15", "The tangent of every material is the derivative of its stress",
  "For each material and every admissible deformation gradient, each component of the material tangent equals the partial derivative of the corresponding stress component with respect to the corresponding deformation component, and the tangent has the major symmetry of a second derivative.",
  ["inputs"], "every deformation gradient in a neighbourhood of the identity, every parameter set in the box, all 81 components",
  "One finite-difference test at one state cannot see terms that vanish there.",
  ["materials/Gent.h", "materials/LinearElastic.h"], [("tangents", "materials/Gent.h"), ("tangents", "materials/LinearElastic.h")])

p("C16", "Linear elasticity is Hooke's law in Young's modulus and Poisson's ratio",
  "Under uniaxial stress the linear elastic material reproduces Young's modulus and Poisson's ratio, its stress is symmetric and linear in the displacement gradient, its energy is half the stress contracted with the strain and is positive for every non-rigid strain. Infinitesimal rotations produce no stress.",
  ["inputs"], "all strains in the box and all moduli with E > 0 and -1 < nu < 1/2 in the box",
  "One fixed deformation and one parameter pair are tested.",
  ["materials/LinearElastic.h"], [("Lame constants and stress", "materials/LinearElastic.h")])

p("C17", "Hyperelastic response is independent of the observer and of material axes",
  "Superposing a rotation on a deformation leaves the energy unchanged and rotates the stress; rotating the reference axes leaves the energy of an isotropic material unchanged. The resulting true stress is symmetric.",
  ["inputs"], "every deformation in the box and every rotation about a coordinate axis",
  "No test applies a rotation.",
  ["materials/Gent.h"], [("invariants of the deformation", "materials/Gent.h")])

p("C18", "The consistency test accepts consistent materials and rejects inconsistent ones",
  "The consistency test returns true exactly when the difference between the increments of energy (or stress) over the given perturbation in both directions and the analytical stress (or tangent) times twice the perturbation, taken over all components, has a norm below the given tolerance. It works for temporaries passed as parameters and leaves its inputs unchanged.",
  ["inputs"], "every deformation, perturbation and tolerance in the box, for materials with an error planted in an arbitrary component",
  "The tests only run materials that pass.",
  ["materials/MaterialConsistencyTest.h", "materials/factories.h"], [("difference loops and verdicts", "materials/MaterialConsistencyTest.h")])

p("C19", "Symbolic derivatives of functions are the true derivatives",
  "For every function built from the library functions by sums, products, quotients, powers, scaling and composition, the derivative (or gradient, component by component) returned by the library equals the mathematical derivative of the function's own evaluation at every point of its domain. Second derivatives obtained by deriving twice are correct too.",
  ["programs", "inputs"], "all expressions over the combinators and library functions within the depth bound, at every point of the stated boxes",
  "The tests compare a few expressions at a few points with hand-computed values.",
  ["functions/derivation_rules.h", "functions/library_derivatives.h", "functions/partial_derivatives.h", "functions/function.h"],
  [("rules for sum, product, reciprocal, chain", "functions/derivation_rules.h"), ("derivatives of library functions", "functions/library_derivatives.h")])

p("C20", "Function arithmetic is pointwise",
  "Evaluating a sum, difference, product, quotient, scaling, power, composition or subscript of functions gives the same value as applying the operation to the values of the operands, for scalar, vector and tensor valued functions. Library functions return their mathematical values.",
  ["programs", "inputs"], "every binary and unary combinator over scalar, vector and matrix valued operands at every point of the box",
  "The tests evaluate a few combinations at single points.",
  ["functions/algebra.h", "functions/function.h", "functions/library_functions.h", "functions/traits.h"],
  [("operators", "functions/algebra.h"), ("evaluation", "functions/function.h")])

p("C21", "Field arithmetic, gradients and divergences are pointwise and exact",
  "Arithmetic on fields is pointwise in the coordinates; the gradient of a scalar field has the partial derivatives with respect to the coordinates as components (in Cartesian coordinates, paired with a direction it is the directional derivative), the gradient of a vector field has the partial derivatives of its components as columns, and the divergence is the trace of that gradient. This holds for coordinates of every kind, component by component.",
  ["inputs"], "polynomial and trigonometric fields with arbitrary coefficients at every point of the box, in Cartesian and polar coordinates",
  "Tests differentiate one fixed field at one point.",
  ["fields/differential.h", "fields/fields_algebra.h", "functions/partial_derivatives.h", "geometry/metric_space.h"],
  [("gradient and divergence", "fields/differential.h"), ("field algebra", "fields/fields_algebra.h")])

p("C22", "Coordinates form an affine space and transformations round-trip",
  "The displacement from one point to another, added to the first, gives the second, and subtracting a point from its own displacement gives the displacement back; in Cartesian coordinates adding and scaling displacements is associative and distributive. Coordinate functions return the coordinate they name, and converting coordinates from Cartesian to polar or spherical and back gives the original point. Distances do not depend on the coordinate system used to state the points.",
  ["inputs"], "every pair of points away from the coordinate singularities, in every quadrant or octant",
  "Tests convert one or two points of the first quadrant.",
  ["coordinates/Coordinates.h", "geometry/algebra_coordinates.h", "geometry/coordinate_transformation.h", "geometry/polar/algebra.h", "geometry/spherical/algebra.h", "geometry/cartesian/algebra.h"],
  [("affine operations", "geometry/algebra_coordinates.h"), ("transformations", "geometry/coordinate_transformation.h")])

p("C23", "Metric, dual basis and volume form of each coordinate system are consistent",
  "At every regular point the coordinate basis vectors are the derivatives of the position, the metric holds their inner products and the inverse metric is its inverse, the dual basis pairs to the identity with the basis, and the volume form evaluated on the basis equals the square root of the determinant of the metric. The one-form that is metrically equivalent to a vector pairs with every other vector as the inner product with it, and raising it again gives the vector back.",
  ["inputs"], "every point away from the coordinate singularities, for Cartesian, polar and spherical coordinates",
  "Tests evaluate the metric and one pairing at a single point.",
  ["geometry/metric_space.h", "geometry/polar/metric.h", "geometry/polar/basis.h", "geometry/spherical/metric.h", "geometry/spherical/basis.h", "geometry/cartesian/metric.h", "geometry/cartesian/basis.h"],
  [("metric and volume form", "geometry/metric_space.h")])

p("C24", "Geometric simplices agree with their nodes, orientation and parametrization",
  "A geometric simplex reports the nodes it was built from in the order of its orientation, its barycenter is the mean of the node coordinates, its parametrization maps the reference corners to the nodes and is affine, and its directors span it with the handedness of the node order. Flipping it reverses the orientation and keeps the nodes.",
  ["inputs"], "all node positions in the box and all node orders of segments, triangles and tetrahedra",
  "Tests use one reference element at fixed positions.",
  ["geometry/GeometricSimplex.h", "geometry/utilities.h", "geometry/ReferenceSimplex.h", "geometry/factories.h"],
  [("node ordering", "geometry/GeometricSimplex.h"), ("directors and parametrization", "geometry/utilities.h")])

p("C25", "Points placed in a coordinate system keep their coordinates",
  "Every point keeps exactly the coordinates it was placed at, no matter how many points are placed, in what order, or whether other points are looked up in between; distinct points never share coordinates by accident and traversing the cloud visits each point that is still in use once. A system made from another one in different coordinates holds the same points at the same positions, and the midpoint of two points lies halfway between them.",
  ["histories", "inputs"], "all histories of placing points and querying coordinates within the bound, at arbitrary positions",
  "Tests place a handful of points and read them back once.",
  ["geometry/CoordinateSystem.h", "geometry/PointCloud.h", "geometry/Point.h"], [("coordinate map", "geometry/CoordinateSystem.h"), ("point repository", "geometry/PointCloud.h")])

p("C26", "Quadrature rules integrate polynomials exactly up to their degree",
  "Each quadrature rule on the reference segment, triangle and tetrahedron integrates every polynomial up to its stated degree of exactness exactly; its points lie inside the element and its weights sum to the measure of the reference element.",
  ["inputs", "configurations"], "all polynomials of that degree (all coefficients at once) for every rule in the tables",
  "Tests integrate one or two functions with one rule.",
  ["quadrature/quadrature_tables_segments.icc", "quadrature/quadrature_tables_triangles.icc", "quadrature/quadrature_tables_tetrahedra.icc", "quadrature/QuadratureTable.h", "quadrature/QuadratureRule.h"],
  [("points and weights", "quadrature/QuadratureTable.h")])

p("C27", "Integrals over manifolds of affine cells are exact and additive",
  "The integral of a polynomial field of the rule's degree over a manifold of affine cells equals the exact integral, is additive over cells and linear in the field; the integral of one is the volume. The volume of a simplex does not depend on the order of its nodes beyond orientation. Integration is stated for Cartesian coordinates, the only ones in which cells are affine images of the reference simplex.",
  ["inputs"], "all non-degenerate positions of the nodes in the box and all polynomial coefficients",
  "Tests integrate over one fixed square or cube.",
  ["manifolds/Manifold.h", "manifolds/factories.h", "quadrature/Integrator.h", "geometry/metric_space.h"],
  [("volume element and parametrization", "manifolds/Manifold.h"), ("quadrature sum", "quadrature/Integrator.h")])

p("C28", "The boundary of a mesh consists of the faces that belong to exactly one cell",
  "The boundary mesh contains exactly those faces that occur in one cell but not, with opposite orientation, in another, each with the orientation induced by its cell (edges run around their triangle; the faces of a tetrahedron are reported as seen from its inside), and where no face is shared by more than two cells the boundary of the boundary is empty. Filtering a mesh by dimension gives exactly the subcells of that dimension.",
  ["inputs", "histories"], "all meshes of up to a few cells sharing faces in any pattern and orientation",
  "Tests use one strip or one cube.",
  ["mesh/Boundary.h", "mesh/Boundary.icc", "mesh/Filter.h", "mesh/Filter.icc", "topology/utilities.h"],
  [("boundary extraction", "mesh/Boundary.icc"), ("filters", "mesh/Filter.icc")])

p("C29", "A mesh holds exactly the cells that were inserted and not erased",
  "After any sequence of inserting and erasing cells, the mesh reports the right number of cells and traverses exactly the remaining ones, nodes keep their points, and where erased cells are erased from the topology as well it holds no simplices that only they used. When the same cell was inserted more than once, erasing one leaves the others.",
  ["histories"], "all insert/erase histories over cells sharing faces within the bound",
  "Tests erase one element of one mesh.",
  ["mesh/Mesh.h", "mesh/utilities.h", "geometry/GeometricSimplex.h", "utilities/SegmentedVector.h"],
  [("cell storage", "mesh/Mesh.h")])

p("C30", "Subdividing a mesh preserves its volume and orientation",
  "Refining a mesh of simplices replaces each cell by the expected number of children that tile it: total volume is preserved for any node positions, every child has the orientation of its parent, and within one level the children of one parent share the midpoints of its edges.",
  ["inputs"], "all positive node positions in the box, one and two levels of refinement within the bound",
  "Tests compare the number of cells or the volume of one fixed mesh.",
  ["mesh/tetra.h"], [("edge midpoint subdivision", "mesh/tetra.h")])

p("C31", "Shape functions are a partition of unity with exact gradients",
  "On every element type the shape functions sum to one everywhere, each is one at its own node and zero at the others, and the gradients returned are the derivatives of the shape functions.",
  ["inputs"], "all points of the reference element",
  "Tests sample the shape functions at quadrature points or nodes with one element.",
  ["fem/elements/seg1", "fem/elements/tri1", "fem/elements/tri2"], [("shape functions", "fem/elements/tri2")])

p("C32", "Isoparametric elements map and differentiate consistently with their nodes",
  "The parametrization of an isoparametric element maps the reference nodes to the element's nodes, the jacobian is its derivative, and the physical gradient of each shape function reproduces the gradient of every linear field exactly. Reordering nodes only relabels the results.",
  ["inputs"], "all non-degenerate node positions in the box and all points of the reference element",
  "Tests use one reference-like element.",
  ["fem/elements/IsoparametricSegment.h", "fem/elements/IsoparametricTriangle.h", "fem/elements/seg1", "fem/elements/tri1", "fem/elements/tri2"], [("jacobian and gradient push-forward", "fem/elements/IsoparametricTriangle.h")])

p("C33", "Elementary blocks equal the integrals they stand for",
  "The elementary mass, stiffness, source and error blocks of an affine, positively oriented element equal the integrals of shape function products, gradient products and source times shape functions; the stiffness block annihilates constants and is symmetric and positive semidefinite, and the mass block sums to the element's volume.",
  ["inputs"], "all non-degenerate node positions and coefficients in the box",
  "Tests look at solutions of one boundary value problem or one fixed block.",
  ["fem/blocks/MassBlock.h", "fem/blocks/GradGradBlock.h", "fem/blocks/SourceTermBlock.h", "fem/blocks/L2NormBlock.h", "fem/blocks/AssemblyBlock.h"],
  [("quadrature loops", "fem/blocks/GradGradBlock.h")])

p("C34", "Discretization shares nodes between neighbours and numbers unknowns consistently",
  "Elements that share a vertex (or an edge midpoint) share the corresponding node and no others, constrained nodes get no unknown, and every free node gets exactly one distinct equation number per unknown with no gaps.",
  ["inputs", "histories"], "all meshes of a few elements in any arrangement and any subset of constrained boundary",
  "Tests count nodes of one fixed mesh.",
  ["fem/FunctionSpace.h", "fem/elements/Discretizer.h", "fem/elements/seg1/DiscretizerCG.h", "fem/elements/tri1/DiscretizerCG.h", "fem/elements/tri2/DiscretizerCG.h", "fem/DiscreteSystem.h", "fem/utilities.h", "constraints/Dirichlet.h", "discrete/DiscretizationNode.h"],
  [("node map", "fem/elements/Discretizer.h"), ("equation map", "fem/DiscreteSystem.h")])

p("C35", "Assembly adds every elementary contribution to the right unknowns",
  "The assembled system equals the sum of all elementary contributions of all blocks of the weak form scattered to the equations of their free nodes, with the rows and columns of constrained nodes left out; the solution field takes the solved values at free nodes and zero, the only prescribed value supported, at constrained nodes. The L2 norm of the difference to a field is the root of the integral of the squared difference, and the H1 norm adds the squared gradient difference in physical coordinates.",
  ["inputs"], "all node positions, nodal values and sources in the box on meshes of a few elements with any constrained part",
  "Tests compare the error norm of a few solved problems with fixed numbers.",
  ["fem/DiscreteSystem.h", "fem/Weakform.h", "fem/FemField.h", "fem/norms.h", "fem/localize.h"],
  [("assembly loops", "fem/DiscreteSystem.h"), ("weak form blocks", "fem/Weakform.h")])

p("C36", "Discrete fields return what was stored for each entity",
  "A discrete field over nodes, points or quadrature points returns for each entity exactly the value last written for it, reports one value per entity inserted, starts from zero and never mixes up entities. Inserting an entity twice or asking for one that is not there is rejected.",
  ["histories", "inputs"], "all histories of insertions and writes over several entities with arbitrary values",
  "Tests fill one field and read it back once.",
  ["discrete/DiscreteField.h", "discrete/factories.h", "discrete/DiscretizationNode.h", "utilities/StdSharedPointer.h", "utilities/StdSharedPointer.icc", "utilities/NamedClass.h"], [("entity map", "discrete/DiscreteField.h")])

p("C37", "Files hold every node, cell and value of what was written",
  "Writing a mesh in the summit format and reading it back, as continuous or discontinuous, yields the same cells in the same orientation on nodes at the same coordinates (to the 15 digits written) that are shared as before, whatever was noted about the elements. Any file of that format is read as the mesh it describes and a missing one is rejected. A file for visualization holds every node of a mesh, point cloud or function space once, at its place in space, every cell, and for each recorded field its values at the right points; in parallel every process writes its own piece.",
  ["inputs", "histories", "configurations"], "all meshes of a few cells over arbitrary nodes, all values of fields, any number of processes up to three",
  "Tests read a few fixed files and compare numbers of cells.",
  ["io/summit/MeshSummitWriter.h", "io/summit/reader.h", "io/summit/writer.h", "io/vtk/MeshVTKWriter.h", "io/vtk/NodeVTKWriter.h", "io/vtk/PointCloudVTKWriter.h", "io/vtk/FieldVTKWriter.h", "io/vtk/GridVTKWriter.h", "io/vtk/ParallelGridVTKWriter.h", "io/vtk/vtk_point.h"],
  [("summit writer", "io/summit/MeshSummitWriter.h"), ("summit reader", "io/summit/reader.h"), ("grids", "io/vtk/MeshVTKWriter.h"), ("fields", "io/vtk/FieldVTKWriter.h")],
  note="File streams and the VTK library (not installed) are stand-ins: a file is a sequence of words and numbers in memory, a printed number comes back with an arbitrary rounding error of the size its precision allows, and VTK objects keep what is put into them. How the standard library and VTK lay out bytes is outside.")

p("C38", "The linear system that is solved is the one that was put in",
  "On any number of processes and for any history of additions, insertions, assemblies and solves, the system handed to the linear algebra backend holds for every entry the sum of what was added to it, or what was last inserted, and what is read back is the whole solution the backend returned. Systems and the options of their solvers do not interfere, the backend is used as its documentation requires, everything created in it is destroyed once, and the solver that goes from a weak form to a field yields the finite element solution.",
  ["histories", "inputs", "configurations"], "all histories of calls on systems of up to three equations over one or two processes, with arbitrary values",
  "Tests solve a few fixed systems on one process.",
  ["matrix_solvers/backend/petsc/PETScLinearSystem.h", "matrix_solvers/backend/petsc/PETScLinearSystem.icc", "matrix_solvers/backend/petsc/PETScKrylovSolver.h", "solvers/LinearSolver.h"],
  [("system wrapper", "matrix_solvers/backend/petsc/PETScLinearSystem.icc"), ("solver wrapper", "matrix_solvers/backend/petsc/PETScKrylovSolver.cc"), ("driver", "solvers/LinearSolver.h")],
  note="PETSc itself is not part of the code base: a stand-in with exact storage keeps its documented contract (deferred off-process entries, no mixing of adding and inserting, local arrays) and records every breach; that PETSc solves the system it is given is an assumption. Values are exact reals in boxes; one or two processes, each seen alone.")

p("C39", "Partitioning a mesh hands every cell to exactly one process",
  "For any mesh and any painting of its cells, the parts that the processes ask for are a partition of the mesh: every cell is in exactly one part, on the simplex, in the orientation and with the nodes it has in the mesh, which is left as it was and does not depend on its parts. The partitioner is given the mesh itself, that is every cell with the vertices that it shares with the others. Every process knows its rank and the number of processes.",
  ["inputs", "configurations", "histories"], "all meshes of a few cells, all paintings of their cells, up to four parts; larger fixed meshes",
  "Tests partition one mesh of four cells and compare the number of cells of one part.",
  ["mesh/metis/Partitioner.h", "mesh/metis/Partitioner.icc", "mesh/metis/api.h", "simulation/Context.h", "simulation/Context.icc", "simulation/Simulation.h", "simulation/factories.h", "utilities/Singleton.h"],
  [("partitioner", "mesh/metis/Partitioner.icc"), ("execution context", "simulation/Context.icc")],
  note="METIS and MPI (not installed) are stand-ins: METIS paints arbitrarily, the same mesh always in the same way (that processes lay out their meshes alike is an assumption), and checks what its documentation asks of its arguments; MPI reports an arbitrary rank.")

p("C40", "The Python interface gives what the library gives",
  "From Python, coordinates made from a tuple return its components and reject an index outside, a scalar field evaluates the Python function it was made from, a mesh made from a file has the cells of the file, and integrating a field over a manifold made from it gives the integral of that function, exactly up to degree two. What was made stays usable after Python drops its own references to what it was made from.",
  ["inputs", "histories"], "all components, all quadratic functions, all positions of nodes of meshes of a few triangles in any orientation, any subset of references dropped at two moments",
  "Tests (not built here) make one field and one integral and keep every object alive.",
  ["/extensions/mito/mito.cc"], [("bindings", "/extensions/mito/mito.cc")],
  note="Python and pybind11 are stand-ins: the module's definitions are kept and called with converted arguments as pybind11 documents it, objects are counted, files are kept in memory. The interpreter itself and the conversions inside pybind11 are outside.")


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for d, na, note in P:
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, na, note in P:
        i = d["id"]
        if na:
            nas.append(dict(property=i, reason=na))
        elif glob.glob(f"{V}/harness/{i}*.cc"):
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                               technique="symbolic execution of the compiled library code with SMT solving (z3), counterexamples replayed natively",
                               level="model_checking",
                               level_note=note or "Every feasible path within the stated bounds is decided by the solver over all input values; floating point is read as exact reals, inputs are boxed; trusts the compiler, the executor (validated by replaying path witnesses natively) and z3."))
        else:
            nas.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="make -j8 -C engine", checks=checks, not_applicable=nas,
             hooks=dict(guard="MITO_SX_HOOKS", enable="no hooks are needed: harnesses include the headers of /repo/lib directly", source_commits=[]))
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
