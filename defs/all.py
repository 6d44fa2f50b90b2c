#!/usr/bin/env python3
from mk import mk
S = "include/geometrycentral/surface/"
mk("C01", "Cached geometry quantities are computed from present, current inputs",
   "Whenever a geometry quantity is required or refreshed, computing it reads other cached quantities only after making sure they are themselves computed for the current input, completely rewrites its own buffer(s), and changes no other quantity's buffer. Thus the value of a quantity depends only on the geometry's input, never on which quantities happened to be required before, in which order, or on what an earlier refresh left behind.",
   ["histories", "inputs"], "Every sequence of require / unrequire / refresh / purge calls on every geometry class, for every mesh, boundary case and virtual override.",
   "The 21 stable tests touch a handful of quantities on a few point clouds; a missing dependency is invisible whenever some earlier call happened to compute it.",
   [S + "intrinsic_geometry_interface.h", "src/surface/intrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "src/surface/extrinsic_geometry_interface.cpp", "src/surface/base_geometry_interface.cpp", "src/pointcloud/point_position_geometry.cpp"],
   [("ensureHave() at the head of each compute routine", "src/surface/*_geometry_interface.cpp"), ("DependentQuantity", "include/geometrycentral/utilities/dependent_quantity.h")],
   "must-availability dataflow over the type-checked AST, per dynamic class with virtual dispatch",
   "Sound for the reads it can see (member access to managed buffers, through references, helpers and lambdas); trusts the extractor and that compute routines are only reached through DependentQuantity.")
mk("C02", "Require / unrequire / refresh / purge protocol of managed quantities",
   "After requireX the quantity X (and no other) is present and stays present until unrequireX has been called as often as requireX; an unbalanced unrequireX is rejected without corrupting the count. refreshQuantities recomputes every required quantity from the new input and makes every other one be recomputed when next needed; purgeQuantities drops exactly the quantities nobody requires.",
   ["histories"], "Every history of require, unrequire, ensure, refresh and purge over every managed quantity of every geometry class.",
   "The tests never unrequire, refresh and purge the same geometry in interesting orders; 60 quantities each have their own hand-written wiring.",
   ["include/geometrycentral/utilities/dependent_quantity.h", "include/geometrycentral/utilities/dependent_quantity.ipp", "src/utilities/dependent_quantity.cpp", "src/surface/base_geometry_interface.cpp", "src/pointcloud/point_position_geometry.cpp"],
   [("DependentQuantity::require/unrequire/ensureHave/clearIfNotRequired", "src/utilities/dependent_quantity.cpp"), ("quantities list", "BaseGeometryInterface, PointPositionGeometry")],
   "finite-domain abstract interpretation of the protocol routines plus wiring extraction and typestate of the list passes",
   "Exhaustive over (computed, count interval, clearable) and over all quantities; trusts the extractor.")
mk("C03", "Algorithms hold a requirement on every cached quantity they read",
   "Every algorithm that reads a cached quantity of a geometry object has a requirement outstanding on that quantity (taken by itself, its caller in the library, or the constructor of its class) at the moment it reads, on every path. No routine returns having released a requirement more often than it took it, so a quantity the user required is still available after calling any algorithm.",
   ["histories", "inputs"], "Every call of every library routine on a geometry in any state of require / unrequire / purge, along every control-flow path.",
   "Tests usually require everything up front or call algorithms in an order which leaves the needed caches filled.",
   ["src/surface/*.cpp", "src/pointcloud/*.cpp", "include/geometrycentral/surface/*.ipp"],
   [("geom.requireX() / geom.unrequireX() pairs", "all algorithm sources")],
   "interprocedural requirement-count dataflow (typestate per geometry object and quantity)",
   "Path-sensitive up to joins on per-object count sets; objects are identified by access path (parameter, member, local), so aliasing two paths to one geometry can hide an over-release but not create one.")
mk("C08", "Element indices are only used for the kind of element they index",
   "An index or count derived from one kind of mesh element (vertex, edge, halfedge or corner, face, boundary loop, interior vertex) is never used to address data, handles, matrix rows / columns or vector entries that range over another kind. Matrices and vectors are multiplied, added, sliced, assembled and solved only when their dimensions range over the same kind of element with the same number of components.",
   ["inputs"], "Every mesh: on most meshes the element counts differ, so a mix-up reads other elements' data or runs out of bounds.",
   "A kind mix-up often type-checks (all indices are size_t) and even gives plausible values on small closed meshes.",
   ["src/surface/*.cpp", "src/pointcloud/*.cpp", "src/numerical/*.cpp", "include/geometrycentral/**"],
   [("vertexIndices / edgeIndices / faceIndices ... quantities", "BaseGeometryInterface"), ("MeshData / element handle constructors", "include/geometrycentral/utilities/mesh_data.h")],
   "unification-based index-kind (units) inference over the type-checked program",
   "Flow-insensitive Hindley-Milner style inference with polymorphic function schemes; sees indices, container domains, triplets and Eigen dimensions with constant strides; unknown kinds never alarm.")
mk("C09", "Algorithms work on meshes with deleted elements",
   "On a mesh from which elements have been deleted and which has not been compressed, algorithms address per-element data by handles and linear-algebra rows and entries by the dense element numbering, and never use a raw element number in place of a dense one or the other way round, unless they compress the mesh, reject it, or have just built it. Hence their results are the same as on the compressed mesh.",
   ["histories", "inputs"], "Every mesh reachable by insertions and deletions, for every algorithm outside the mesh classes themselves.",
   "All tests (and most examples) run on freshly loaded meshes, on which raw and dense numbers coincide.",
   ["src/surface/*.cpp", "include/geometrycentral/utilities/mesh_data.ipp"],
   [("getVertexIndices() and friends", "src/surface/surface_mesh.cpp"), ("MeshData::toVector/fromVector", "include/geometrycentral/utilities/mesh_data.ipp")],
   "index-kind inference with raw and dense numberings kept apart",
   "As C08; routines that only see compressed meshes are found by their own compress()/isCompressed() use or by having just built the mesh.")
mk("C04", "Per-element data stays attached to its element through growth and compression",
   "Whenever a mesh or point cloud grows or is compacted, every internal array and every user data container keeps, for each surviving element, exactly the value it held for that element: growth extends all containers of that element kind to the new capacity (with strictly more room than before), compaction moves all of them by the same permutation and rewrites every stored element reference to the new numbering. Boundary loop data follows its boundary loop and not the face whose storage it shares.",
   ["histories", "inputs"], "Every sequence of insertions, deletions and compressions, every capacity and element count (including empty), every kind of data container.",
   "The tests allocate a handful of points and never trigger a growth or compress() of the connectivity arrays with data attached; a forgotten array shows only on the next access past the old size.",
   ["src/surface/surface_mesh.cpp", "include/geometrycentral/surface/surface_mesh.ipp", "src/pointcloud/point_cloud.cpp"],
   [("getNewVertex / getNewFace / getNewEdgeTriple / ...", "src/surface/surface_mesh.cpp"), ("compressVertices / compressEdges / ...", "src/surface/surface_mesh.cpp"), ("expand / permute callback lists", "SurfaceMesh, PointCloud")],
   "path-wise effect analysis (event traces of value terms over the type-checked program) against the array-kind table inferred by index-kind inference",
   "All control paths of every capacity-changing and every compaction routine; the strict growth and shift laws are decided exactly on piecewise-linear terms. Arrays are enumerated from the class, so a new array is covered. Does not decide that the permutation itself is the right one beyond its domain and order.")

mk("C05", "Connectivity changes leave a valid halfedge mesh",
   "After each of the operations edge flip, insertVertexAlongEdge, splitEdgeTriangular, connectVertices (two halfedges), separateEdge, collapseEdgeTriangular, removeEdge and switchHalfedgeSides on a manifold mesh, applied to any valid mesh within its documented precondition, the mesh is valid again: next / twin / vertex / face of every halfedge agree (a halfedge and its next lie in one face, the next starts where the twin starts, next is a permutation), every vertex, face and boundary loop keeps a live halfedge of its own, a boundary vertex keeps the halfedge that runs along the boundary, the first halfedge of an edge is interior, the number of interior halfedges is right, nothing that remains refers to a deleted element, the modification counter has moved; and an operation that refuses leaves the mesh unchanged.",
   ["inputs"], "Every valid mesh and every element the operation is applied to, including boundary, low-degree and self-adjacent neighbourhoods as far as the operation distinguishes them.",
   "Tests apply an operation to a few elements of a few meshes; a wrong pointer shows only where the stored halfedge of a vertex, face or boundary loop happens to be one the operation touches, or along a boundary.",
   ["src/surface/surface_mesh.cpp", "src/surface/manifold_surface_mesh.cpp"],
   [("flip", "src/surface/surface_mesh.cpp"), ("insertVertexAlongEdge, connectVertices, splitEdgeTriangular, separateEdge, switchHalfedgeSides, collapseEdgeTriangular, removeEdge", "src/surface/manifold_surface_mesh.cpp")],
   "shape analysis: abstract interpretation of each operation over an equality domain (congruence closure under halfedge-mesh laws), orbit loops as universal updates",
   "All paths of eight operations (about 160). insertVertex, removeVertex, removeFaceAlongBoundary, ensureVertexHasBoundaryHalfedge and triangulate link families of elements whose number is not fixed; the domain does not express them and they are reported as not decided. Elements are taken to be distinct unless the laws or a test of the operation identify them (flip is also analysed with the edge ending at a vertex of degree one).")
mk("C06", "Data containers stay registered with exactly their mesh for their whole life",
   "A data container (MeshData of any element kind) is registered for growth, compaction and destruction events with the mesh it is defined on, and with no other, from construction to destruction, through copying, moving, assigning and clearing; a moved-from or cleared container is registered with nothing. Its handlers extend it keeping old values and filling new slots with its default value, permute it, and detach it when the mesh dies, so a container may outlive its mesh. Every other callback the library registers is removed on every path out of the scope that owns what it captures.",
   ["histories"], "Every history of creating, copying, moving, assigning, clearing and destroying containers and meshes, interleaved with mutations.",
   "Lifecycle mistakes leave a dangling callback behind, which shows (if at all) as a memory error in a later, unrelated mutation.",
   ["include/geometrycentral/utilities/mesh_data.h", "include/geometrycentral/utilities/mesh_data.ipp", "src/surface/surface_mesh.cpp", "src/pointcloud/point_cloud.cpp", "src/surface/intrinsic_triangulation.cpp", "src/surface/flip_geodesics.cpp"],
   [("registerWithMesh / deregisterWithMesh", "MeshData"), ("expand / permute / meshDelete callback lists", "SurfaceMesh, PointCloud")],
   "typestate analysis of registration over all paths of all special members, plus abstract interpretation of the registered handlers",
   "All instantiations of MeshData the library uses plus one per element kind; every handler that is registered; buffers are tracked per segment (old slots / new slots).")
mk("C20", "Mutation manager: constraints hold and policies see every mutation",
   "A mutation through MutationManager only happens if every constraint on its element allows it. When it happens, every registered policy of that kind is told once before and once after, with the element, the parameter and the result of that very mutation, and the new vertex already has its position when the after-event is sent; when it is refused, nothing is announced as done. Positions interpolate exactly between the two ends. Both halves of a split edge inherit each constraint of the old edge. A removed policy is not called again; handler one-liners install the functions they are given, and hand the pre handler's result to the post handler.",
   ["histories", "inputs"], "Every mutation, constraint combination, geometry or none, and set of registered policies.",
   "The stable test suite does not exercise MutationManager at all; upstream tests use one policy at a time and no constraints.",
   ["src/surface/mutation_manager.cpp", "include/geometrycentral/surface/mutation_manager.h", "include/geometrycentral/surface/mutation_manager.ipp"],
   [("flipEdge / splitEdge / collapseEdge / splitFace / repositionVertex", "src/surface/mutation_manager.cpp"), ("registerPolicy / removePolicy", "src/surface/mutation_manager.cpp"), ("Simple*Updater", "include/geometrycentral/surface/mutation_manager.ipp")],
   "path-wise event-order (typestate) analysis with helpers interpreted in place, truth-table decision of the predicates",
   "All paths of all operations; policy lists are enumerated from the class. Does not decide that the mesh operation itself is right, nor that a collapse announced by the before-event succeeds (documented TODO).")

mk("C07", "Copies are complete and independent",
   "copy() of a mesh or point cloud yields an object with the same value of every member that makes up its state (connectivity arrays, counts, capacities, fill counts, flags), none of the original's callbacks, and leaves the original unchanged. copy() and reinterpretTo() of a geometry carry over the data that defines it, moved to the mesh the copy lives on. Data reinterpreted on another mesh has a slot for every element that mesh has room for, and keeps its default value. toVector / fromVector pair every live element with its own entry, the same one in both directions.",
   ["inputs", "histories"], "Every mesh state (including with deleted elements and spare capacity), every container type, every geometry.",
   "A forgotten member only shows for meshes with deletions or spare capacity, usually long after the copy; tests copy freshly built meshes.",
   ["src/surface/surface_mesh.cpp", "src/surface/manifold_surface_mesh.cpp", "src/pointcloud/point_cloud.cpp", "src/surface/edge_length_geometry.cpp", "src/surface/vertex_position_geometry.cpp", "include/geometrycentral/utilities/mesh_data.ipp"],
   [("copyInternalFields / copy", "SurfaceMesh, ManifoldSurfaceMesh, PointCloud"), ("reinterpretTo", "EdgeLengthGeometry, VertexPositionGeometry, MeshData"), ("toVector / fromVector", "MeshData")],
   "path-wise member-effect analysis with the member list enumerated from the class",
   "Covers every routine named copy / clone / reinterpretTo that returns an owned object of its class. The modification counter is exempt: it is only compared with itself. Format conversions (toManifoldMesh, toSurfaceMesh, getFaceVertexList) are not copies and are not decided.")

mk("C12", "Results scale with the model: units of length are used consistently",
   "Geometric computations are covariant under uniform scaling of the model. Every managed geometry quantity carries its documented power of length (lengths and tangent vectors 1, areas and mass matrices 2, their inverses -2, mean curvature per edge integrated 1, principal curvatures -1, angles, transports, cotan weights and Laplacians 0, gradients -1); the heat-flow time is a squared length, distances and logarithmic maps are lengths. No computation adds or compares quantities of different powers of length, or compares a length, area or inverse length with a fixed numeric tolerance or offset. (The third-party exact polyhedral geodesic code, which uses absolute tolerances throughout, is not included.)",
   ["inputs"], "Every model and every scale factor, for all library code except the exact polyhedral geodesic port.",
   "Tests run on models of unit size, where a missing square or an absolute tolerance makes no visible difference; only scaling the input by several orders of magnitude shows it.",
   ["src/surface/intrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "src/surface/extrinsic_geometry_interface.cpp", "src/surface/heat_method_distance.cpp", "src/surface/vector_heat_method.cpp", "src/surface/signed_heat_method.cpp", "src/surface/trace_geodesic.cpp", "src/surface/intrinsic_triangulation.cpp", "src/surface/integer_coordinates_intrinsic_triangulation.cpp", "src/surface/signpost_intrinsic_triangulation.cpp", "src/pointcloud/point_cloud_heat_solver.cpp"],
   [("compute* of all managed quantities", "IntrinsicGeometryInterface, ExtrinsicGeometryInterface, EmbeddedGeometryInterface, PointPositionGeometry"), ("shortTime", "heat method solvers"), ("tolerances", "src/surface/*.cpp")],
   "units-of-measure type inference (polymorphic, interprocedural, flow-aware) over the type-checked program",
   "All functions of the library (about 3900 bodies); documented units of 79 quantities as anchors. Decides dimensional consistency, which is necessary for scale covariance; dimensionless factors (a wrong constant) are not decided. Values the inference cannot give one unit (matrices mixing rows of different units, user-chosen vector magnitudes) are not constrained.")

mk("C10", "Differential operators have the structure documented for them",
   "Whatever the (triangle, for the polygon operators: polygon) mesh and metric: (1) cotanLaplacian, vertexGalerkinMassMatrix, crouzeixRaviartLaplacian, simplePolygonLaplacian, simplePolygonVertexGalerkinMassMatrix, polygonLaplacian and polygonHodge1 are symmetric; vertexConnectionLaplacian, faceConnectionLaplacian, crouzeixRaviartConnectionLaplacian and polygonVertexConnectionLaplacian, and the matrices that direction fields, stripe patterns and the signed heat method assemble for themselves, are Hermitian (symmetric in real form). (2) cotanLaplacian, crouzeixRaviartLaplacian, polygonLaplacian, d0 and polygonD0 map constants to zero, and the vertex and face connection Laplacians do so when every transport is the identity. (3) d0 takes (value at head) - (value at tail) of e.halfedge() (polygonD0: of the halfedge), d1 d0 = 0 and polygonD1 polygonD0 = 0. (4) Lumped mass matrices and Hodge stars are diagonal, an inverse star inverts the star of its degree, and the Galerkin mass of a triangle adds up to its area. (5) transportVectorsAlongHalfedge[h] maps the tangent space of h's tail to that of its tip, transportVectorsAcrossHalfedge[h] that of h's face to that of h.twin()'s face, both so that the edge direction is mapped to itself; the values at h and h.twin() are inverse to each other; and an entry (i, j) of a connection Laplacian uses the transport from j to i. (6) The rows of CommonSubdivision's interpolation matrices at a vertex and along an edge add up to one, with 1 - t at the tail and t at the tip of e.halfedge(), and the barycentric coordinates of a face go to its vertices in order from f.halfedge(); complexToReal replaces a + ib by the block [a -b; b a].",
   ["inputs"], "Every mesh, metric and function: the identities hold entry by entry in exact arithmetic, independently of the values of weights, areas and angles.",
   "The tests build these matrices on a few meshes and look at sizes and finiteness; an asymmetric or reversed entry still gives a plausible solve.",
   ["src/surface/intrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "src/surface/direction_fields.cpp", "src/surface/stripe_patterns.cpp", "src/surface/signed_heat_method.cpp", "src/surface/common_subdivision.cpp", "src/numerical/linear_algebra_utilities.cpp"],
   [("compute*Laplacian, compute*MassMatrix, computeDECOperators, computePolygonDECOperators", "src/surface/*_geometry_interface.cpp"), ("computeTransportVectors{Along,Across}Halfedge", "src/surface/intrinsic_geometry_interface.cpp"), ("buildVertexEnergyMatrix", "src/surface/stripe_patterns.cpp"), ("crouzeixRaviartDoubleConnectionLaplacian", "src/surface/signed_heat_method.cpp")],
   "abstract interpretation of matrix assembly over one generic mesh element with polynomial normal forms; closure of the entry set under conjugate transposition modulo loop relabelling",
   "28 assembly routines, every path of each. Exact arithmetic: rounding is ignored. Positive semi-definiteness depends on the cotan weights and is not decided. Contributions whose values are not understood are undecided and not reported.")

mk("C13", "Linear solvers validate input, report failure, and release what they allocate",
   "Constructing a solver with a matrix that has a non-finite entry, that is not square (SquareSolver, PositiveDefiniteSolver) or not symmetric/Hermitian (PositiveDefiniteSolver) throws; so does a factorization that fails: a singular matrix for SquareSolver, an LDL^T factorization that breaks down for PositiveDefiniteSolver, a QR factorization that cannot be made. solve() throws for a right-hand side of the wrong length or with a non-finite entry, before using it. The validators look at every entry. Everything SuiteSparse allocates on behalf of a solver is released exactly once: temporaries before solve() returns or throws, factorizations when the solver is destroyed or its constructor throws; nothing is used after its release.",
   ["inputs", "histories"], "Every matrix and right-hand side, every scalar type (float, double, complex), every sequence of constructions, solves and destructions, with SuiteSparse.",
   "Tests solve a few well-posed systems; leaks, ignored status codes and unchecked inputs give the right answer there.",
   ["src/numerical/square_solvers.cpp", "src/numerical/positive_definite_solvers.cpp", "src/numerical/qr_solvers.cpp", "src/numerical/suitesparse_utilities.cpp", "include/geometrycentral/numerical/linear_algebra_utilities.ipp"],
   [("constructors, destructors and solve() of the three solvers", "src/numerical/*_solvers.cpp"), ("toCholmod / toEigen", "src/numerical/suitesparse_utilities.cpp"), ("checkFinite / checkHermitian / checkSymmetric", "include/geometrycentral/numerical/linear_algebra_utilities.ipp")],
   "path-sensitive typestate analysis of handles and status codes with helpers interpreted in place; loop-coverage analysis of the validators",
   "All functions that reach SuiteSparse in all instantiated scalar types (57 functions). Which routines allocate, free and return which status is specified from the SuiteSparse documentation. Accuracy of the solution is not decided; the Eigen backend is not compiled here and not analysed.")
mk("C14", "Every value is given before it is used, every result on every path",
   "No operation of the library uses a number, flag, enumerator, pointer or vector/matrix entry before the code has given it a value, and none hands out a result record with such a field unset: an accumulator starts from a stated value, a flag has a value on the paths that do not set it, a right-hand side is zeroed before it is accumulated into, an output parameter is written on every path after which the caller reads it. Constructors give a value to every scalar data member that a public operation reads before writing. Functions with a result return one (or throw) on every path. A switch over one of the library's enumerations handles every enumerator (or has a default), and no case runs on into the next.",
   ["inputs", "histories"], "Every input and every path through every function, including early exits, empty paths, boundary cases and the rarely taken options.",
   "An unset value is usually zero in a fresh process and right by luck; the path that leaves it unset is often the rare one; no test sees it.",
   ["src", "include/geometrycentral"],
   [("locals, output parameters, result records and constructors", "src/**, include/geometrycentral/**"), ("switches over library enumerations", "src/**, include/geometrycentral/**")],
   "path-sensitive definite-assignment dataflow with summaries of output parameters and returned records; constructor/member initialization analysis; switch exhaustiveness",
   "All functions with a body. A counted or range loop is taken to run at least once, and a search loop that leaves under an equality test to find what it looks for; classes whose documented protocol fills them in a first call (Interval, SurfacePointWithIndex, GeodesicAlgorithmExact::propagate) are exempt for those members; entries of C arrays and containers are not told apart; values read from a stream that failed are not considered. Whether the value given is the right one is not decided here.")
mk("C15", "No reference, range or callback outlives what it refers to",
   "No reference, pointer or iterator into a container (including mesh data, the lists of paths, subdivision points, intervals and queues) is used after an operation that may move or remove the element it refers to: appending to a vector, erasing, clearing, reassigning, growing or compressing the mesh behind mesh data. A loop over a container or over the neighbourhood of a mesh element does not go on after its body changed that container or the mesh's connectivity, nor a loop over the elements of a mesh after compress(). An object whose contents were moved out is not read again before it is assigned. A callback that refers to local variables and is registered in a longer-lived list is unregistered on every normal way out. No pointer, reference, iterator or closure to a local object is returned or stored where it outlives the object, and pointers to elements are only kept for containers that never move their elements.",
   ["inputs", "histories"], "Every input, every sequence of growth and erasure, every path through every function, through helpers and lambdas.",
   "A stale reference usually still reads the old bytes; whether a vector reallocates depends on sizes and allocation history.",
   ["src", "include/geometrycentral"],
   [("views into containers and mesh data", "src/**, include/geometrycentral/**"), ("callback lists of meshes and intrinsic triangulations", "src/surface/intrinsic_triangulation.cpp, src/surface/flip_geodesics.cpp"), ("CommonSubdivision::subdivisionPoints", "include/geometrycentral/surface/common_subdivision.h")],
   "typestate dataflow over storage paths with a catalogue of container invalidation rules and interprocedural effect summaries (fixpoint); escape analysis",
   "All functions with a body, including lambdas. Distinct reference parameters and this are taken not to alias; user callbacks are taken not to change the mesh; the mesh classes' own surgery is decided by C05. When an exception leaves a function with a registered callback is not decided.")
mk("C16", "Queries are independent of each other and leave their inputs alone",
   "An object that answers queries (the heat, vector heat, signed heat, polygon heat and point cloud heat solvers, boundary first flattening, the Poisson disk sampler, exact geodesics) answers each from what it was constructed with, the settings in force and the query's own arguments: whatever order of queries and settings preceded it, every kept factorization or table has been built before it is used and is rebuilt once a setting it was computed from has changed, and nothing is left over from an earlier query. An algorithm that is not documented to modify a mesh, a geometry or a point cloud it is given or was constructed with leaves its connectivity, positions, lengths and cached quantities as they were, and does not write to what it receives by const reference. No result depends on hidden global or static state other than the random generators.",
   ["histories", "inputs"], "Every sequence of queries and settings on one object, every input, every path.",
   "Tests ask one question of a fresh solver; what a second query inherits, or what happened to the caller's Laplacian, is not looked at.",
   ["src/surface", "src/pointcloud", "include/geometrycentral"],
   [("the ensureHave... functions and members of the solver classes", "src/surface/*heat*.cpp, src/surface/boundary_first_flattening.cpp, src/pointcloud/point_cloud_heat_solver.cpp"), ("GeodesicAlgorithmExact::clear, PoissonDiskSampler::clearData", "src/surface"), ("functions taking a mesh, geometry or point cloud", "include/geometrycentral/**")],
   "interprocedural mod-ref (side effect) analysis over storage paths by a fixpoint; abstract interpretation of each query from the member state any history can leave, with data dependences of kept members",
   "All functions with a body for side effects; eight query classes, their 59 public methods interpreted with helpers, owned objects and lambdas in place. The functions documented to modify their arguments are listed in checks/c16.py. Distinct reference parameters are taken not to alias; evaluating a managed quantity changes only its own buffer (C01). Entries of C arrays used as scratch are not followed. Whether the answer is the right one is not decided here.")
mk("C17", "Degenerate elements give numbers: roots and arc functions stay in their domain",
   "Angles, lengths, areas, heights and distances are computed by taking square roots of numbers that are never negative and arc cosines / arc sines of numbers in [-1, 1], whatever the input: collinear or coincident points, faces of zero or nearly zero area, edge lengths that touch or miss the triangle inequality, parallel and antiparallel vectors, points at corners. Rounding in such a configuration gives zero, pi or another limit value, not NaN.",
   ["inputs"], "Every mesh, geometry, vector and point, in particular all degenerate and nearly degenerate ones, every rounding.",
   "A cosine rounds to 1.0000000000000002 on a few inputs in a thousand, and only for nearly flat triangles; sampled tests use well-shaped ones.",
   ["src", "include/geometrycentral"],
   [("cornerAngles, faceAreas, halfedge vectors in faces", "src/surface/intrinsic_geometry_interface.cpp, include/geometrycentral/surface/*_geometry.ipp"), ("angle, triangleArea, layouts", "include/geometrycentral/utilities/*.ipp"), ("BarycentricVector::norm, FMMDistance, exact geodesics, convex embedding", "src/surface")],
   "flow-sensitive interval analysis (value ranges) with branch refinement, result summaries and call-site parameter ranges",
   "Every call of sqrt, acos and asin on a real number in functions a user can reach (78 calls in 59 functions). Edge lengths, areas and given minimum distances are taken to be non-negative; divisions by zero, overflow and NaN inputs are not considered. One site is exempt with a reason (the eikonal discriminant, whose NaN only meets comparisons).")
