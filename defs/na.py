#!/usr/bin/env python3
"""Properties users rely on which static analysis cannot decide here."""
from mk import mk
S, I = "src/surface/", "include/geometrycentral/surface/"
def na(id, title, st, q, why, files, mech, reason):
    mk(id, title, st, ["inputs"], q, why, files, mech, na=reason)
na("C30", "Exact geodesic distances are the true polyhedral distances",
   "On every connected triangle mesh and set of sources, the distance reported by the exact geodesic algorithms at any surface point equals the length of the shortest polyline on the polyhedral surface from a source to it, and tracing back from the point yields a polyline of that length ending at that source.",
   "Every triangle mesh, including obtuse and nearly degenerate ones, every set of sources in vertices, edges and faces.", "Window propagation goes wrong only in rare configurations of window overlaps.",
   [S + "exact_geodesics.cpp", S + "exact_geodesic_helpers.cpp"], [("window propagation and trimming", S + "exact_geodesics.cpp")],
   "The claim compares real numbers computed by an unbounded sequence of window trimmings with a global minimum over paths; no static domain in reach bounds it.")
na("C31", "Flipping to Delaunay ends, and the result is intrinsic Delaunay",
   "flipToDelaunay and delaunayRefine finish on every valid intrinsic triangulation; afterwards every non-fixed interior edge satisfies the intrinsic Delaunay condition up to the documented tolerance, refinement meets the requested angle bound away from fixed features, and the intrinsic metric is unchanged.",
   "Every valid intrinsic metric.", "Termination rests on a real-valued potential; cycling is caused by rounding on near-cocircular input.",
   [S + "intrinsic_triangulation.cpp", S + "simple_idt.cpp"], [("flip queue", S + "intrinsic_triangulation.cpp")],
   "Termination and optimality rest on a decreasing real-valued potential under rounding; the structural side (queue bookkeeping, validity of flips, carried data, units of the tests) is decided by C04, C05, C12, C14, C15.")
na("C32", "The common subdivision lies on both triangulations",
   "For every sequence of flips and insertions the overlay of intrinsic and input triangulations contains every crossing exactly once, its faces lie inside one face of each, and interpolation matrices map linear functions to the same function on the overlay.",
   "Every sequence of intrinsic edge flips, insertions and relocations.", "Only long random flip sequences reach multi-crossing configurations.",
   [S + "common_subdivision.cpp", S + "integer_coordinates_intrinsic_triangulation.cpp", S + "normal_coordinates.cpp"], [("constructMesh, normal coordinates", S + "common_subdivision.cpp")],
   "The invariant (normal and roundabout coordinates encode a curve system) is arithmetic over unbounded integers per edge across whole flip histories; it is neither an effect, a type, nor a finite-state protocol.")
na("C33", "FlipOut shortens to a geodesic without leaving the homotopy class",
   "iterativeShorten ends with a network whose every non-fixed wedge angle is at least pi (within tolerance), each step keeps the path isotopic and does not lengthen it.",
   "Every starting edge path, every intrinsic triangulation.", "The failing cases need particular geometry (angles near pi, repeated vertices, closed loops).",
   [S + "flip_geodesics.cpp"], [("FlipEdgeNetwork::locallyShortenAt", S + "flip_geodesics.cpp")],
   "The claim relates sums of floating-point corner angles before and after an unbounded number of flips; the bookkeeping that can be decided statically is in C05, C14, C15.")
na("C34", "Discretizations converge and agree with the smooth operators",
   "Heat-method distances, vector heat transport, signed heat distance, logarithmic maps, polygon and point cloud Laplacians, stripe patterns and conformal parameterizations converge to their smooth counterparts under refinement and are exact on the cases for which they are documented to be.",
   "Every smooth surface and every regular refinement of it.", "A test samples one mesh and one tolerance.",
   [S + "heat_method_distance.cpp", S + "vector_heat_method.cpp", S + "signed_heat_method.cpp", S + "polygon_mesh_heat_solver.cpp", S + "stripe_patterns.cpp", S + "boundary_first_flattening.cpp"], [("algorithm sources", S)],
   "Convergence is a statement about limits of floating-point results; the static consequences (structure of the operators, consistent units, required quantities, solver protocol) are C10, C12, C03 and C13.")
na("C35", "Solutions of linear systems and eigenproblems are accurate",
   "The residual of every solve is small relative to the conditioning of the matrix, and the eigenvalue routines converge to the smallest (or requested) eigenpairs.",
   "Every non-singular matrix and right-hand side, every scalar type.", "Accuracy depends on conditioning, which tests sample.",
   ["src/numerical"], [("solvers and power iterations", "src/numerical")],
   "Accuracy is a property of numerical values inside SuiteSparse / Eigen and of convergence of iterations; the protocol around them is C13.")
na("C36", "Files written and read again give the same mesh",
   "Writing a mesh, its geometry, parameterization or rich data and reading it back gives the same connectivity, indices and values (to the precision of the format); malformed files are rejected with an error.",
   "Every mesh and every byte string offered as OBJ, STL, OFF or PLY.", "Tests round-trip a few files.",
   ["src/surface/meshio.cpp", "src/surface/rich_surface_mesh_data.cpp", "src/surface/simple_polygon_mesh.cpp", "src/pointcloud/point_cloud_io.cpp"], [("readers and writers", "src/surface/simple_polygon_mesh.cpp")],
   "Text formatting, stream state and parsing of arbitrary bytes are string-valued computations with no finite abstraction in reach, and the PLY side depends on happly, which is not present in this sandbox, so it cannot be compiled here.")
na("C37", "Constructors accept exactly the polygon soups they can represent",
   "Building a mesh from any list of polygons either throws (isolated vertices, repeated vertices in a face, non-manifold or inconsistently oriented edges for the manifold class) or yields a mesh whose faces list the same vertices in the same order.",
   "Every list of index lists.", "Inputs are unbounded; the tests use valid meshes.",
   ["src/surface/surface_mesh.cpp", "src/surface/manifold_surface_mesh.cpp", "src/surface/surface_mesh_factories.cpp"], [("SurfaceMesh / ManifoldSurfaceMesh constructors", S + "surface_mesh.cpp")],
   "The construction is a fixpoint over a hash map of vertex pairs for an arbitrary list of polygons; the shape analysis of C05 decides single surgery steps on symbolic neighbourhoods and has no invariant language for whole-mesh construction loops. That the arrays of the result have consistent sizes and defaults is part of C04 and C14.")
na("C38", "Parameterizations are injective or conformal as documented",
   "Boundary first flattening, Tutte-like and circle-pattern embeddings and convex polyhedron embedding give maps which are locally injective / conformal, and prescribed boundary data are met.",
   "Every disk or sphere topology mesh for which the method is documented.", "Depends on real-valued solutions.",
   [S + "boundary_first_flattening.cpp", S + "parameterize.cpp", S + "embed_convex.cpp"], [("solves", S + "boundary_first_flattening.cpp")],
   "Injectivity and conformality are inequalities between computed real numbers.")
na("C39", "Traced geodesics end where the exponential map says",
   "traceGeodesic from a surface point walks exactly the requested length in a straight line over the unfolded faces, ends at the documented kind of point, and reports the transported direction, on every mesh incl. boundaries and cone vertices; the trace ends in finitely many steps.",
   "Every mesh, start point, direction and length.", "Rounding near vertices and edges is never hit by tests.",
   [S + "trace_geodesic.cpp"], [("traceInFaceFromEdge, traceInFaceTowardsPoint", S + "trace_geodesic.cpp")],
   "The claim is about accumulated real lengths and angles and about rounding at face borders; the walk's termination rests on a real-valued remaining length.")
na("C40", "Singularity and index counts obey their topological sums",
   "Face and vertex indices of every smooth direction field sum to the Euler characteristic (with the symmetry order), the stripe branch indices and the angle defects sum to the documented totals, and the number of connected components, boundary loops and the genus are correct.",
   "Every mesh and field.", "Sums are exact in theory but computed by rounding floating-point angles.",
   [S + "direction_fields.cpp", S + "stripe_patterns.cpp", S + "surface_mesh.cpp"], [("computeFaceIndex / computeVertexIndex", S + "direction_fields.cpp")],
   "Each term is a rounded sum of angles; that the roundings add up is a statement about real numbers, not about the code's structure (pairing of orientations in the transports is decided in C10).")
na("C41", "Remeshing and sampling reach the quality they promise",
   "Remeshing ends within the iteration limit with edge lengths near the target and no boundary movement beyond the options; Poisson disk sampling returns samples no closer than the radius that leave no gap; Voronoi tessellations end with generators at their centres.",
   "Every mesh and options.", "Quality is geometric and depends on random choices.",
   [S + "remeshing.cpp", S + "poisson_disk_sampler.cpp", S + "geodesic_centroidal_voronoi_tessellation.cpp"], [("remesh, PoissonDiskSampler::sample, computeGeodesicCentroidalVoronoiTessellation", S)],
   "Distances between sampled points and edge length statistics are values of a randomized floating-point process; the mutations involved are decided by C04, C05, C15 and C20.")
na("C42", "Random draws are uniform and reproducible",
   "Sampling routines draw points uniformly with respect to area and produce the same result for the same seed.",
   "Every seed.", "Distributions need many samples.",
   ["src/surface/poisson_disk_sampler.cpp", "src/utilities/utilities.cpp"], [("std::mt19937 with random_device seeds", "src/utilities/utilities.cpp")],
   "The generators are seeded from the hardware on purpose, so reproducibility is not promised by the code; uniformity is a statistical statement.")
