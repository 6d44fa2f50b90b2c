From 01cc7d23e7bfbdfa061d6b477289bbe8c54bf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 01/41] fix: minAngleDegreesAtValidFaces must not read the
 corner angle cache it never required

---
 src/surface/intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_triangulation.cpp b/src/surface/intrinsic_triangulation.cpp
index bf9d73d..dd9be4b 100644
--- a/src/surface/intrinsic_triangulation.cpp
+++ b/src/surface/intrinsic_triangulation.cpp
@@ -234,7 +234,7 @@ double IntrinsicTriangulation::minAngleDegreesAtValidFaces(double minAngleSum) c
     if (!faceHasLargeAngleSums(f)) continue;
     if (!parentFaceHasLargeAngleSums(f)) continue;
     for (Corner c : f.adjacentCorners()) {
-      minCornerAngle = fmin(minCornerAngle, cornerAngles[c]);
+      minCornerAngle = fmin(minCornerAngle, getCornerAngle(c));
     }
   }
   return minCornerAngle * 180 / M_PI;
-- 
2.43.0


From 1857014d590ddf8ba743f7c8ef42eb706d24d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 02/41] fix: release vertex angle sums on the early return of
 minAngleDegreesAtValidFaces

---
 src/surface/intrinsic_triangulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/intrinsic_triangulation.cpp b/src/surface/intrinsic_triangulation.cpp
index dd9be4b..0897854 100644
--- a/src/surface/intrinsic_triangulation.cpp
+++ b/src/surface/intrinsic_triangulation.cpp
@@ -222,6 +222,7 @@ double IntrinsicTriangulation::minAngleDegreesAtValidFaces(double minAngleSum) c
     inputGeom.requireVertexAngleSums();
     for (Vertex v : fInput.adjacentVertices()) {
       if (inputGeom.vertexAngleSums[v] * 180 < M_PI * minAngleSum) {
+        inputGeom.unrequireVertexAngleSums();
         return false;
       }
     }
-- 
2.43.0


From 817ad675e550ce8677de2ff6fdb49f689e44e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 03/41] fix: ensure tangent bases before building the point
 cloud connection Laplacian

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..aadd96f 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 6b8756cb6be91273d1fc6547e2bb99dd7081b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 04/41] fix: restore the requirement count before throwing on
 unbalanced unrequire()

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..11b3713 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From df541455ea87bcf529a60e83ed286bfa081235c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 05/41] fix: traceGeodesic must require the edge lengths it
 reads

---
 src/surface/trace_geodesic.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..4003cd4 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -689,6 +689,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
   geom.requireVertexAngleSums();
   geom.requireHalfedgeVectorsInVertex();
   geom.requireHalfedgeVectorsInFace();
+  geom.requireEdgeLengths();
 
   // The output data
   TraceGeodesicResult result;
@@ -704,6 +705,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireVertexAngleSums();
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
+    geom.unrequireEdgeLengths();
 
     result.endingDir = Vector2::zero();
     result.length = 0;
@@ -743,6 +745,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
   geom.unrequireVertexAngleSums();
   geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireHalfedgeVectorsInFace();
+  geom.unrequireEdgeLengths();
 
   return result;
 }
@@ -755,6 +758,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
   geom.requireVertexAngleSums();
   geom.requireHalfedgeVectorsInVertex();
   geom.requireHalfedgeVectorsInFace();
+  geom.requireEdgeLengths();
 
   // The output data
   TraceGeodesicResult result;
@@ -773,6 +777,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
     geom.unrequireVertexAngleSums();
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
+    geom.unrequireEdgeLengths();
 
     // probably want to ensure we still return a point in a face...
     if (traceOptions.errorOnProblem) {
@@ -804,6 +809,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
   geom.unrequireVertexAngleSums();
   geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireHalfedgeVectorsInFace();
+  geom.unrequireEdgeLengths();
 
   return result;
 }
-- 
2.43.0


From 2f8e818dfe41550bd617bf84f378fbb85ff78646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 06/41] fix: SignedHeatSolver must require the face areas, edge
 lengths and corner angles it reads

---
 src/surface/signed_heat_method.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 4673618..0687312 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -329,6 +329,10 @@ void SignedHeatSolver::buildUnsignedCurveSource(const Curve& curve, Vector<std::
     throw std::logic_error("Unsigned curves not constrained to edges are not supported.");
   std::vector<Vertex> endpoints = {curve.nodes[0].vertex, curve.nodes[nNodes - 1].vertex};
   std::vector<std::vector<Halfedge>> heBounds = {{heStart_src, heEnd_src}, {heStart_dst, heEnd_dst}};
+
+  geom.requireEdgeLengths();
+  geom.requireCornerAngles();
+
   std::vector<double> angleSums(2);
   VertexData<Vector2> arcStarts(mesh);
   VertexData<Vector2> arcEnds(mesh);
@@ -438,6 +442,9 @@ void SignedHeatSolver::buildUnsignedCurveSource(const Curve& curve, Vector<std::
       currHe = currHe.next().next().twin();
     }
   }
+
+  geom.unrequireEdgeLengths();
+  geom.unrequireCornerAngles();
 }
 
 void SignedHeatSolver::buildUnsignedPointSource(const SurfacePoint& p, Vector<std::complex<double>>& X0) const {
@@ -687,7 +694,9 @@ std::complex<double> SignedHeatSolver::projectedNormal(const SurfacePoint& pA, c
   }
   if (!orientation) edgeVecCoords *= -1;
   BarycentricVector edgeVec(f, edgeVecCoords);
+  geom.requireEdgeLengths();
   edgeVec /= geom.edgeLengths[e];
+  geom.unrequireEdgeLengths();
 
   // <tangent, edgeVec> = sin(theta)
   // <J tangent, edgeVec> = cos(theta)
@@ -805,6 +814,7 @@ SparseMatrix<double> SignedHeatSolver::crouzeixRaviartDoubleConnectionLaplacian(
 
   geom.requireEdgeIndices();
   geom.requireEdgeLengths();
+  geom.requireFaceAreas();
   geom.requireHalfedgeCotanWeights();
 
   size_t E = mesh.nEdges();
@@ -849,6 +859,7 @@ SparseMatrix<double> SignedHeatSolver::crouzeixRaviartDoubleConnectionLaplacian(
 
   geom.unrequireEdgeIndices();
   geom.unrequireEdgeLengths();
+  geom.unrequireFaceAreas();
   geom.unrequireHalfedgeCotanWeights();
 
   return L;
-- 
2.43.0


From bf7cbabc2dea0211fadd8bb50eb255105dc350c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 07/41] fix: require edge lengths while laying out a geodesic
 from normal coordinates

---
 src/surface/normal_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..99bdebb 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -882,8 +882,7 @@ std::vector<std::pair<SurfacePoint, double>> generateFullSingleGeodesicGeometry(
   // passes through out in the plane
   // Do the layout by first computing the orientation of each halfedge in the
   // triangle strip, and then laying out faces using those directions
-  // Can I get away without requiring these?
-  // geo.requireEdgeLengths();
+  geo.requireEdgeLengths();
 
   // Stolen from edge_length_geometry.ipp
   // TODO: refactor better
@@ -1044,6 +1043,7 @@ std::vector<std::pair<SurfacePoint, double>> generateFullSingleGeodesicGeometry(
 
   embeddedCurve.push_back(std::make_pair(vEnd, 1));
 
+  geo.unrequireEdgeLengths();
   return embeddedCurve;
 }
 
-- 
2.43.0


From 287c0a5c3b9f2a8aa3b3d41f87e6bdaccb6fdea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 08/41] fix: exact geodesic helpers must require the edge
 lengths they read

---
 src/surface/exact_geodesic_helpers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 773fc56..02d2b5c 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -311,10 +311,12 @@ double compute_surface_distance(IntrinsicGeometryInterface& geom, const SurfaceP
   SurfacePoint p1InFace = p1.inFace(fShared);
   SurfacePoint p2InFace = p2.inFace(fShared);
 
+  geom.requireEdgeLengths();
   // lengths[i] is the length of the edge opposite the i'th vertex
   Vector3 triangleLengths{geom.edgeLengths[fShared.halfedge().next().edge()],
                           geom.edgeLengths[fShared.halfedge().next().next().edge()],
                           geom.edgeLengths[fShared.halfedge().edge()]};
+  geom.unrequireEdgeLengths();
   Vector3 displacement = p1InFace.faceCoords - p2InFace.faceCoords;
   return displacementLength(displacement, triangleLengths);
 }
@@ -370,10 +372,13 @@ std::pair<double, double> compute_local_coordinates(IntrinsicGeometryInterface&
   SurfacePoint tailInFace = SurfacePoint(he, 0).inFace(fShared);
   SurfacePoint tipInFace = SurfacePoint(he, 1).inFace(fShared);
 
+  geom.requireEdgeLengths();
   // lengths[i] is the length of the edge opposite the i'th vertex
   Vector3 triangleLengths{geom.edgeLengths[fShared.halfedge().next().edge()],
                           geom.edgeLengths[fShared.halfedge().next().next().edge()],
                           geom.edgeLengths[fShared.halfedge().edge()]};
+  double eLength = geom.edgeLengths[e];
+  geom.unrequireEdgeLengths();
   Vector3 tailDisp = pointInFace.faceCoords - tailInFace.faceCoords;
   double d0 = displacementLength(tailDisp, triangleLengths);
 
@@ -384,10 +389,10 @@ std::pair<double, double> compute_local_coordinates(IntrinsicGeometryInterface&
   Vector3 tipDisp = pointInFace.faceCoords - tipInFace.faceCoords;
   double d1 = displacementLength(tipDisp, triangleLengths);
   if (d1 < 1e-50) {
-    return std::make_pair(geom.edgeLengths[e], 0);
+    return std::make_pair(eLength, 0);
   }
 
-  double x = geom.edgeLengths[e] / 2.0 + (d0 * d0 - d1 * d1) / (2.0 * geom.edgeLengths[e]);
+  double x = eLength / 2.0 + (d0 * d0 - d1 * d1) / (2.0 * eLength);
   double y = sqrt(std::max(0.0, d0 * d0 - x * x));
 
   return std::make_pair(x, y);
-- 
2.43.0


From 10bed38a576372e580ded9adaae970a794a6c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 09/41] fix: getNewBoundaryLoop must return a boundary loop
 handle, not a face index

---
 src/surface/manifold_surface_mesh.cpp | 7 ++++---
 src/surface/surface_mesh.cpp          | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..e5a3d5f 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -723,6 +723,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heN2 = heN1.twin();
     Edge eN = heN1.edge();
     BoundaryLoop blN = getNewBoundaryLoop();
+    size_t iBlNFace = boundaryLoopIndToFaceInd(blN.getIndex());
 
     // Hook up references
     heNextArr[heT.getIndex()] = heN2.getIndex();
@@ -733,12 +734,12 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     heVertexArr[heN1.getIndex()] = vB.getIndex();
     heVertexArr[heN2.getIndex()] = vA.getIndex();
 
-    heFaceArr[heT.getIndex()] = blN.getIndex();
+    heFaceArr[heT.getIndex()] = iBlNFace;
     heFaceArr[heN1.getIndex()] = fB.getIndex();
-    heFaceArr[heN2.getIndex()] = blN.getIndex();
+    heFaceArr[heN2.getIndex()] = iBlNFace;
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
-    fHalfedgeArr[blN.getIndex()] = heT.getIndex();
+    fHalfedgeArr[iBlNFace] = heT.getIndex();
 
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..9b0d921 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1599,7 +1599,7 @@ BoundaryLoop SurfaceMesh::getNewBoundaryLoop() {
 
   modificationTick++;
   isCompressedFlag = false;
-  return BoundaryLoop(this, nFacesCapacityCount - nBoundaryLoopsFillCount);
+  return BoundaryLoop(this, nBoundaryLoopsFillCount - 1);
 }
 
 void SurfaceMesh::expandFaceStorage() {
-- 
2.43.0


From 5c5176ed0f548fa22180e7f8d7233572fd268f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 10/41] fix: face storage growth must account for deleted
 boundary loop slots

---
 src/surface/surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 9b0d921..b9e6728 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1567,7 +1567,7 @@ Halfedge SurfaceMesh::getNewEdgeTriple(bool onBoundary) {
 Face SurfaceMesh::getNewFace() {
 
   // The boring case, when no resize is needed
-  if (nFacesFillCount + nBoundaryLoopsCount < nFacesCapacityCount) {
+  if (nFacesFillCount + nBoundaryLoopsFillCount < nFacesCapacityCount) {
     // No work needed
   }
   // The intesting case, where vectors resize
@@ -1586,7 +1586,7 @@ Face SurfaceMesh::getNewFace() {
 BoundaryLoop SurfaceMesh::getNewBoundaryLoop() {
 
   // The boring case, when no resize is needed
-  if (nFacesFillCount + nBoundaryLoopsCount < nFacesCapacityCount) {
+  if (nFacesFillCount + nBoundaryLoopsFillCount < nFacesCapacityCount) {
     // No work needed
   }
   // The intesting case, where vectors resize
-- 
2.43.0


From 3bff4a4b716b8ff80a320f1f9a2284b0f2cf41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 11/41] fix: PolygonMeshHeatSolver must use dense vertex
 indices (meshes with deleted elements)

---
 src/surface/polygon_mesh_heat_solver.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a75f5c0..b69544f 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -102,17 +102,20 @@ VertexData<double> PolygonMeshHeatSolver::extendScalars(const std::vector<std::t
   GC_SAFETY_ASSERT(sources.size() != 0, "must have at least one source");
 
   ensureHaveScalarHeatSolver();
+  geom.requireVertexIndices();
 
   size_t V = mesh.nVertices();
   Vector<double> rhsVals = Vector<double>::Zero(V);
   Vector<double> rhsOnes = Vector<double>::Zero(V);
   for (size_t i = 0; i < sources.size(); i++) {
-    size_t ind = std::get<0>(sources[i]).getIndex();
+    size_t ind = geom.vertexIndices[std::get<0>(sources[i])];
     double val = std::get<1>(sources[i]);
     rhsVals[ind] = val;
     rhsOnes[ind] = 1.;
   }
 
+  geom.unrequireVertexIndices();
+
   Vector<double> interpVals = scalarHeatSolver->solve(rhsVals);
   Vector<double> interpOnes = scalarHeatSolver->solve(rhsOnes);
   Vector<double> resultArr = (interpVals.array() / interpOnes.array());
@@ -153,7 +156,6 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
       normsAllSame = false;
     }
   }
-  geom.unrequireVertexIndices();
 
   // Transport
   Vector<std::complex<double>> vecSolution = vectorHeatSolver->solve(dirRHS);
@@ -162,14 +164,15 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
   VertexData<Vector2> solution(mesh);
   if (normsAllSame) {
     vecSolution = (vecSolution.array() / vecSolution.array().abs()) * firstNorm;
-    for (size_t i = 0; i < V; i++) solution[i] = Vector2::fromComplex(vecSolution[i]);
+    for (Vertex v : mesh.vertices()) solution[v] = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]);
   } else {
     VertexData<double> interpMags = extendScalars(magnitudeSources);
-    for (size_t i = 0; i < V; i++) {
-      Vector2 dir = Vector2::fromComplex(vecSolution[i]).normalize();
-      solution[i] = dir * interpMags[i];
+    for (Vertex v : mesh.vertices()) {
+      Vector2 dir = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]).normalize();
+      solution[v] = dir * interpMags[v];
     }
   }
+  geom.unrequireVertexIndices();
 
   return solution;
 }
-- 
2.43.0


From 4ade1878fd2cb07cd6588118dc590acd869e1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 12/41] fix: stripe patterns must use dense vertex indices
 (meshes with deleted elements)

---
 src/surface/stripe_patterns.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 6bc2fbc..e98adbf 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -123,8 +123,10 @@ SparseMatrix<double> computeRealVertexMassMatrix(IntrinsicGeometryInterface& geo
   geometry.requireVertexDualAreas();
 
   std::vector<Eigen::Triplet<double>> triplets(2 * mesh.nVertices());
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    double area = geometry.vertexDualAreas[i];
+  VertexData<size_t> vertexIndices = mesh.getVertexIndices();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = vertexIndices[v];
+    double area = geometry.vertexDualAreas[v];
     triplets[2 * i] = Eigen::Triplet<double>(2 * i, 2 * i, area);
     triplets[2 * i + 1] = Eigen::Triplet<double>(2 * i + 1, 2 * i + 1, area);
   }
@@ -152,10 +154,12 @@ VertexData<Vector2> computeParameterization(IntrinsicGeometryInterface& geometry
 
   // Copy the result to a VertexData vector
   VertexData<Vector2> toReturn(mesh);
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    toReturn[i].x = solution(2 * i);
-    toReturn[i].y = solution(2 * i + 1);
-    toReturn[i] = toReturn[i].normalize();
+  VertexData<size_t> vertexIndices = mesh.getVertexIndices();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = vertexIndices[v];
+    toReturn[v].x = solution(2 * i);
+    toReturn[v].y = solution(2 * i + 1);
+    toReturn[v] = toReturn[v].normalize();
   }
   return toReturn;
 }
-- 
2.43.0


From 5ddbc8f46ab011929c6f0a3f7c575ecbf0b4f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 13/41] fix: cutAlongEdges must visit exactly the halfedges
 that exist (meshes with deleted elements)

---
 src/surface/surgery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 74a7020..ce974fb 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -14,8 +14,8 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   // Initialize parent references
   // The built-in dynamic container updates will automatically keep this container in sync as we modify the mesh
   HalfedgeData<Halfedge> parentHalfedges(*mesh, Halfedge());
-  for (size_t i = 0; i < mesh->nHalfedges(); i++) {
-    parentHalfedges[i] = origMesh.halfedge(i);
+  for (Halfedge he : mesh->halfedges()) {
+    parentHalfedges[he] = origMesh.halfedge(he.getIndex());
   }
 
   // Transfer the cut data to the new mesh.
-- 
2.43.0


From 665a1d35a0d32694fbab67376f1dbfe60487d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 14/41] fix: uniformizeDisk must use dense vertex indices
 (meshes with deleted elements)

---
 src/surface/uniformize.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index 8885d3e..a9f5c2a 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -38,8 +38,10 @@ EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInte
   size_t N = mesh.nVertices();
   size_t N_b = 0;
   Vector<bool> isInterior(N);
-  for (size_t i = 0; i < N; i++) {
-    isInterior(i) = !mesh.vertex(i).isBoundary();
+  VertexData<size_t> vertexIndices = mesh.getVertexIndices();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = vertexIndices[v];
+    isInterior(i) = !v.isBoundary();
     if (!isInterior(i)) {
       N_b++;
     }
-- 
2.43.0


From 53207ae408b45238bf26997d03da5aa4b537e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 15/41] fix: adaptive affine log map must not address vertex
 data by dense index (meshes with deleted elements)

---
 src/surface/vector_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 081ecbb..54591e9 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -411,7 +411,7 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_AffineAdaptive(const V
     // Do the translation using the values at i
     // (we could equivalently do it at j)
     Vector2 eij = geom.halfedgeVectorsInVertex[he];
-    Vector2 Xi = parallel_section[iTail];
+    Vector2 Xi = parallel_section[he.vertex()];
     Vector2 t = -eij / Xi;
 
     // The developing connection
-- 
2.43.0


From daa9382cf7218215da143ca1ac89dd4bccae798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 16/41] fix: growing an empty element buffer must give it room
 (doubling a zero capacity)

---
 src/pointcloud/point_cloud.cpp | 2 +-
 src/surface/surface_mesh.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..d7f4bf0 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -99,7 +99,7 @@ Point PointCloud::getNewPoint() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nPointsCapacityCount * 2;
+    size_t newCapacity = std::max(nPointsCapacityCount * 2, (size_t)1);
 
     // Resize internal arrays
     pointValid.resize(newCapacity);
diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index b9e6728..d6581c0 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1376,7 +1376,7 @@ Vertex SurfaceMesh::getNewVertex() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nVerticesCapacityCount * 2;
+    size_t newCapacity = std::max(nVerticesCapacityCount * 2, (size_t)1);
 
     // Resize internal arrays
     vHalfedgeArr.resize(newCapacity);
@@ -1603,7 +1603,7 @@ BoundaryLoop SurfaceMesh::getNewBoundaryLoop() {
 }
 
 void SurfaceMesh::expandFaceStorage() {
-  size_t newCapacity = nFacesCapacityCount * 2;
+  size_t newCapacity = std::max(nFacesCapacityCount * 2, (size_t)1);
 
   // Resize internal arrays
   fHalfedgeArr.resize(newCapacity);
-- 
2.43.0


From d4db1e62e0b9ac96823d8b8601c7fe200374c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 17/41] fix: getNewEdgeTriple must grow the vertex iteration
 lists with the other halfedge buffers

---
 src/surface/surface_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index d6581c0..49d8497 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1510,6 +1510,10 @@ Halfedge SurfaceMesh::getNewEdgeTriple(bool onBoundary) {
         heSiblingArr.resize(newHalfedgeCapacity);
         heEdgeArr.resize(newHalfedgeCapacity);
         heOrientArr.resize(newHalfedgeCapacity);
+        heVertInNextArr.resize(newHalfedgeCapacity);
+        heVertInPrevArr.resize(newHalfedgeCapacity);
+        heVertOutNextArr.resize(newHalfedgeCapacity);
+        heVertOutPrevArr.resize(newHalfedgeCapacity);
       }
 
       nHalfedgesCapacityCount = newHalfedgeCapacity;
-- 
2.43.0


From cb983af3f656df96b765d7712fa05331edf3c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 18/41] fix: compress() must keep boundary loop data attached
 to its boundary loop

---
 src/surface/surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 49d8497..141dbbd 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1879,6 +1879,9 @@ void SurfaceMesh::compressFaces() {
   }
 
 
+  // Boundary loops are indexed from the back of the face buffer, so walking it forwards visited them in reverse
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
+
   // Permute & resize all per-face arrays
   fHalfedgeArr = applyPermutation(fHalfedgeArr, newIndMap);
 
-- 
2.43.0


From 8c8e4ee1bbbbb73c8e00a375acd1d2bcba4dc237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 19/41] fix: moved-from mesh data must not stay registered with
 the mesh (compress() read past its empty buffer)

---
 include/geometrycentral/utilities/mesh_data.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..1eff9ed 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,7 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+  other.clear(); // the moved-from container has no buffer left, so it must not receive callbacks anymore
 }
 
 
@@ -64,11 +65,14 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
+
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
+  other.clear(); // the moved-from container has no buffer left, so it must not receive callbacks anymore
 
   return *this;
 }
-- 
2.43.0


From e0ca07d941c2ca34218365aae0b158de2640e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 20/41] fix: destroying a point cloud must detach the data
 containers defined on it

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index d7f4bf0..e3d5720 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From abda14e207e2564cc70cf1f07f47615a4d95d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 21/41] fix: removing a mutation policy must also remove it
 from the face split policies

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..3f09a8b 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -393,6 +393,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From a7718cf67b8aa58543a9eb30b122fa79dce2a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 22/41] fix: collapseEdge at a position must pass the collapse
 location it computes to the policies

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 3f09a8b..8f59763 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -214,7 +214,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From d1c83fb53ad41e09d48f77f3a1b3975cadf6b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 23/41] fix: data reinterpreted on another mesh must have a
 slot for every element that mesh has room for

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 1eff9ed..74a9b60 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -260,7 +260,11 @@ inline MeshData<E, T> MeshData<E, T>::reinterpretTo(ParentMeshT& targetMesh) con
   GC_SAFETY_ASSERT(nElements<E>(mesh) == nElements<E>(&targetMesh),
                    "meshes must have same number of elements to reinterpret");
   MeshData<E, T> newData(targetMesh, defaultValue);
-  newData.data = data;
+  // the meshes may have reserved room for a different number of elements, the new buffer must match the target mesh
+  size_t nCopy = static_cast<size_t>(data.size() < newData.data.size() ? data.size() : newData.data.size());
+  for (size_t i = 0; i < nCopy; i++) {
+    newData.data[i] = data[i];
+  }
   return newData;
 }
 
-- 
2.43.0


From f7c2cdfde395bbbbbf20a87998b10db273c4cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 24/41] fix: changing a tangent vector to an edge's frame must
 only rotate it

---
 src/surface/exact_geodesic_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 02d2b5c..798b626 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -436,7 +436,7 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
     GC_SAFETY_ASSERT(heShared != Halfedge(), "failed to find shared halfedge");
 
     // Transform from face to halfedge
-    vTransformed /= geom.halfedgeVectorsInFace[heShared];
+    vTransformed /= geom.halfedgeVectorsInFace[heShared].normalize();
 
     // Transform from halfedge to edge
     if (!heShared.orientation()) {
-- 
2.43.0


From 39c43afdb25f3aeab0772b2d2437fa60f56b38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 25/41] fix: the degenerate-triangle test of the simple polygon
 Laplacian must not depend on the model's scale

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..0eedbff 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -516,7 +516,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::simplePolygonStiffnessMatrix(const Fa
     const double arg =
         (l[0] + (l[1] + l[2])) * (l[2] - (l[0] - l[1])) * (l[2] + (l[0] - l[1])) * (l[0] + (l[1] - l[2]));
     const double area = 0.5 * std::sqrt(arg);
-    if (area > 1e-7) {
+    if (area > 1e-7 * (l2[0] + l2[1] + l2[2])) {
       l[0] = 0.25 * (l2[1] + l2[2] - l2[0]) / area;
       l[1] = 0.25 * (l2[2] + l2[0] - l2[1]) / area;
       l[2] = 0.25 * (l2[0] + l2[1] - l2[2]) / area;
-- 
2.43.0


From 46251c45dd879710b53327898af16984c527233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 26/41] fix: the line side tolerance of sparse polyhedral
 geodesics is compared with an area

---
 src/surface/exact_polyhedral_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/exact_polyhedral_geodesics.cpp b/src/surface/exact_polyhedral_geodesics.cpp
index 17ac6ce..cb629b2 100644
--- a/src/surface/exact_polyhedral_geodesics.cpp
+++ b/src/surface/exact_polyhedral_geodesics.cpp
@@ -31,7 +31,7 @@ bool isCCW(Vector2 p1, Vector2 p2, double eps = 0.) { return cross(p1, p2) > -ep
 bool isStrictlyCCW(Vector2 p1, Vector2 p2) {
   double LINESIDE_EPS = 1e-6;
   double scale = std::fmax(p1.norm(), p2.norm());
-  return isCCW(p1, p2, LINESIDE_EPS * scale);
+  return isCCW(p1, p2, LINESIDE_EPS * scale * scale);
 }
 
 
-- 
2.43.0


From 5907a77d47d001bb871fff998286a29fe7485b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 27/41] fix: Poisson disk avoidance balls must be filled at the
 minimum distance at every scale

---
 src/surface/poisson_disk_sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index afb70cd..3338ed4 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -149,9 +149,9 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
     // been scaled s.t. projected points end up being approx. r apart.)
     double r = rMinDist;
     while (r < radius) {
-      for (double z = -0.99; z <= 0.99; z += rMinDist) {
+      for (double z = -0.99; z <= 0.99; z += rMinDist / r) {
         double coeff = std::sqrt(1. - z * z);
-        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / coeff) {
+        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / (r * coeff)) {
           Vector3 pos = {r * coeff * std::cos(theta), r * coeff * std::sin(theta), r * z};
           pos += newPos;
           addPointToSpatialLookup(pos);
-- 
2.43.0


From 2034b58aad73d514821cac3302d68dd99a5095b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 28/41] fix: the hyperbolic Delaunay test compares a scale-free
 score with the tolerance

---
 src/surface/simple_idt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..c0f62d7 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -104,6 +104,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
         score += lC / (lA * lB);
       }
 
+      score *= edgeLengths[e]; // scale-free, like the tolerance
       return score < -delaunayEPS;
       break;
     }
-- 
2.43.0


From c12b3cf03b38a0483f2677b4fce66312f769480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 29/41] fix: separateEdge counts the halfedge that becomes
 exterior

---
 src/surface/manifold_surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index e5a3d5f..9f311ec 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -744,6 +744,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is on the boundary now
     modificationTick++;
     return std::tuple<Halfedge, Halfedge>{he, heN1};
   }
@@ -790,6 +791,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
     vHalfedgeArr[vN.getIndex()] = he.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is on the boundary now
+
     ensureEdgeHasInteriorHalfedge(he.edge());
 
     std::tuple<Halfedge, Halfedge> result{he.edge().halfedge(), heN1};
-- 
2.43.0


From 31cba9c7a3b16f7cb4419f6aeeffd2fa6c60d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 30/41] fix: separateEdge walks around a vertex of polygonal
 faces

---
 src/surface/manifold_surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 9f311ec..2eeebcd 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -777,7 +777,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
-- 
2.43.0


From 3ff5647b076db10b1124d33c560f6f0fdc268896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 31/41] fix: removeFaceAlongBoundary counts the halfedges that
 become exterior

---
 src/surface/manifold_surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 2eeebcd..72b9c2d 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1368,6 +1368,7 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
-- 
2.43.0


From fb543e6983225ebc6a8dd0af9472f21889d5f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 32/41] fix: linear solvers release their SuiteSparse data when
 the constructor throws

---
 src/numerical/positive_definite_solvers.cpp | 23 +++++++--------
 src/numerical/qr_solvers.cpp                | 31 +++++++++++----------
 src/numerical/square_solvers.cpp            | 29 +++++++++----------
 3 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/numerical/positive_definite_solvers.cpp b/src/numerical/positive_definite_solvers.cpp
index eaf12fb..47f70ec 100644
--- a/src/numerical/positive_definite_solvers.cpp
+++ b/src/numerical/positive_definite_solvers.cpp
@@ -14,23 +14,24 @@ struct PSDSolverInternals {
   CholmodContext context;
   cholmod_sparse* cMat = nullptr;
   cholmod_factor* factorization = nullptr;
+
+  // Here rather than in the solver, so that it also runs if the solver's constructor throws
+  ~PSDSolverInternals() {
+    if (cMat != nullptr) {
+      cholmod_l_free_sparse(&cMat, context);
+      cMat = nullptr;
+    }
+    if (factorization != nullptr) {
+      cholmod_l_free_factor(&factorization, context);
+    }
+  }
 #else
   Eigen::SimplicialLDLT<SparseMatrix<T>> solver;
 #endif
 };
 
 template <typename T>
-PositiveDefiniteSolver<T>::~PositiveDefiniteSolver() {
-#ifdef GC_HAVE_SUITESPARSE
-  if (internals->cMat != nullptr) {
-    cholmod_l_free_sparse(&internals->cMat, internals->context);
-    internals->cMat = nullptr;
-  }
-  if (internals->factorization != nullptr) {
-    cholmod_l_free_factor(&internals->factorization, internals->context);
-  }
-#endif
-}
+PositiveDefiniteSolver<T>::~PositiveDefiniteSolver() {}
 
 template <typename T>
 PositiveDefiniteSolver<T>::PositiveDefiniteSolver(SparseMatrix<T>& mat)
diff --git a/src/numerical/qr_solvers.cpp b/src/numerical/qr_solvers.cpp
index deb8e87..8085f67 100644
--- a/src/numerical/qr_solvers.cpp
+++ b/src/numerical/qr_solvers.cpp
@@ -19,27 +19,28 @@ struct QRSolverInternals {
   cholmod_sparse* cMatTrans = nullptr;
   SuiteSparseQR_factorization<typename SOLVER_ENTRYTYPE<T>::type>* factorization = nullptr;
   double zero_tolerance = -2; // (use default)
+
+  // Here rather than in the solver, so that it also runs if the solver's constructor throws
+  ~QRSolverInternals() {
+    if (cMat != nullptr) {
+      cholmod_l_free_sparse(&cMat, context);
+      cMat = nullptr;
+    }
+    if (cMatTrans != nullptr) {
+      cholmod_l_free_sparse(&cMatTrans, context);
+      cMatTrans = nullptr;
+    }
+    if (factorization != nullptr) {
+      SuiteSparseQR_free(&(factorization), context);
+    }
+  }
 #else
   Eigen::SparseQR<SparseMatrix<T>, Eigen::COLAMDOrdering<int>> solver;
 #endif
 };
 
 template <typename T>
-Solver<T>::~Solver() {
-#ifdef GC_HAVE_SUITESPARSE
-  if (internals->cMat != nullptr) {
-    cholmod_l_free_sparse(&internals->cMat, internals->context);
-    internals->cMat = nullptr;
-  }
-  if (internals->cMatTrans != nullptr) {
-    cholmod_l_free_sparse(&internals->cMatTrans, internals->context);
-    internals->cMatTrans = nullptr;
-  }
-  if (internals->factorization != nullptr) {
-    SuiteSparseQR_free(&(internals->factorization), internals->context);
-  }
-#endif
-}
+Solver<T>::~Solver() {}
 
 template <typename T>
 Solver<T>::Solver(SparseMatrix<T>& mat) : LinearSolver<T>(mat), internals(new QRSolverInternals<T>()) {
diff --git a/src/numerical/square_solvers.cpp b/src/numerical/square_solvers.cpp
index 6ecde6c..c4a625b 100644
--- a/src/numerical/square_solvers.cpp
+++ b/src/numerical/square_solvers.cpp
@@ -16,26 +16,27 @@ struct SquareSolverInternals {
   cholmod_sparse* cMat = nullptr;
   void* symbolicFactorization = nullptr;
   void* numericFactorization = nullptr;
+
+  // Here rather than in the solver, so that it also runs if the solver's constructor throws
+  ~SquareSolverInternals() {
+    if (cMat != nullptr) {
+      cholmod_l_free_sparse(&cMat, context);
+      cMat = nullptr;
+    }
+    if (symbolicFactorization != nullptr) {
+      umfpack_dl_free_symbolic(&symbolicFactorization);
+    }
+    if (numericFactorization != nullptr) {
+      umfpack_dl_free_numeric(&numericFactorization);
+    }
+  }
 #else
   Eigen::SparseLU<SparseMatrix<T>> solver;
 #endif
 };
 
 template <typename T>
-SquareSolver<T>::~SquareSolver() {
-#ifdef GC_HAVE_SUITESPARSE
-  if (internals->cMat != nullptr) {
-    cholmod_l_free_sparse(&internals->cMat, internals->context);
-    internals->cMat = nullptr;
-  }
-  if (internals->symbolicFactorization != nullptr) {
-    umfpack_dl_free_symbolic(&internals->symbolicFactorization);
-  }
-  if (internals->numericFactorization != nullptr) {
-    umfpack_dl_free_numeric(&internals->numericFactorization);
-  }
-#endif
-}
+SquareSolver<T>::~SquareSolver() {}
 
 // Helper functions to interface with umfpack without explicitly specializing all of constructor and solve(). Different
 // function calls are needed for real vs. complex case.
-- 
2.43.0


From da6966f9f4a2d49489b7ef094969b5406ce229ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 33/41] fix: SquareSolver throws if the factorization fails, as
 it does with the Eigen backend

---
 src/numerical/square_solvers.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/numerical/square_solvers.cpp b/src/numerical/square_solvers.cpp
index c4a625b..6c3f08a 100644
--- a/src/numerical/square_solvers.cpp
+++ b/src/numerical/square_solvers.cpp
@@ -47,6 +47,14 @@ namespace {
 
 #ifdef GC_HAVE_SUITESPARSE
 // = Factorization
+inline void umfCheckFactor(SuiteSparse_long status) {
+  // note that a singular matrix is only a warning to umfpack, but the factors can't be used to solve
+  if (status != UMFPACK_OK) {
+    throw std::runtime_error("matrix factorization failed, umfpack status " + std::to_string(status) +
+                             (status == UMFPACK_WARNING_singular_matrix ? " (matrix is singular)" : ""));
+  }
+}
+
 template <typename T>
 void umfFactor(size_t N, cholmod_sparse* mat, void*& symbolicFac, void*& numericFac);
 
@@ -55,24 +63,24 @@ void umfFactor<double>(size_t N, cholmod_sparse* mat, void*& symbolicFac, void*&
   SuiteSparse_long* cMat_p = (SuiteSparse_long*)mat->p;
   SuiteSparse_long* cMat_i = (SuiteSparse_long*)mat->i;
   double* cMat_x = (double*)mat->x;
-  umfpack_dl_symbolic(N, N, cMat_p, cMat_i, cMat_x, &symbolicFac, NULL, NULL);
-  umfpack_dl_numeric(cMat_p, cMat_i, cMat_x, symbolicFac, &numericFac, NULL, NULL);
+  umfCheckFactor(umfpack_dl_symbolic(N, N, cMat_p, cMat_i, cMat_x, &symbolicFac, NULL, NULL));
+  umfCheckFactor(umfpack_dl_numeric(cMat_p, cMat_i, cMat_x, symbolicFac, &numericFac, NULL, NULL));
 }
 template <>
 void umfFactor<float>(size_t N, cholmod_sparse* mat, void*& symbolicFac, void*& numericFac) {
   SuiteSparse_long* cMat_p = (SuiteSparse_long*)mat->p;
   SuiteSparse_long* cMat_i = (SuiteSparse_long*)mat->i;
   double* cMat_x = (double*)mat->x;
-  umfpack_dl_symbolic(N, N, cMat_p, cMat_i, cMat_x, &symbolicFac, NULL, NULL);
-  umfpack_dl_numeric(cMat_p, cMat_i, cMat_x, symbolicFac, &numericFac, NULL, NULL);
+  umfCheckFactor(umfpack_dl_symbolic(N, N, cMat_p, cMat_i, cMat_x, &symbolicFac, NULL, NULL));
+  umfCheckFactor(umfpack_dl_numeric(cMat_p, cMat_i, cMat_x, symbolicFac, &numericFac, NULL, NULL));
 }
 template <>
 void umfFactor<std::complex<double>>(size_t N, cholmod_sparse* mat, void*& symbolicFac, void*& numericFac) {
   SuiteSparse_long* cMat_p = (SuiteSparse_long*)mat->p;
   SuiteSparse_long* cMat_i = (SuiteSparse_long*)mat->i;
   double* cMat_x = (double*)mat->x;
-  umfpack_zl_symbolic(N, N, cMat_p, cMat_i, cMat_x, NULL, &symbolicFac, NULL, NULL);
-  umfpack_zl_numeric(cMat_p, cMat_i, cMat_x, NULL, symbolicFac, &numericFac, NULL, NULL);
+  umfCheckFactor(umfpack_zl_symbolic(N, N, cMat_p, cMat_i, cMat_x, NULL, &symbolicFac, NULL, NULL));
+  umfCheckFactor(umfpack_zl_numeric(cMat_p, cMat_i, cMat_x, NULL, symbolicFac, &numericFac, NULL, NULL));
 }
 
 // = Solves
-- 
2.43.0


From 45001c4a84723552ad8fb3fe7f00a310c3ed7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 34/41] fix: checkFinite of a row vector reads its entries, not
 the row after

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..4cec3f9 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From 4e771968c7e1818b8250ef6d4a1ca4b0e3b3f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 35/41] fix: a trace that starts on a boundary edge and leaves
 the mesh has length zero, not an uninitialized one

---
 src/surface/trace_geodesic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 4003cd4..69b24dd 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -496,6 +496,7 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
       result.terminated = true;
       result.endPoint = SurfacePoint(currEdge, tEdge);
       result.incomingDirToPoint = currVecDir;
+      result.traceVectorInHalfedgeLen = currVecLen; // nothing was traced
 
       return result;
     }
-- 
2.43.0


From 2017bca488acfda13d26c78f54d520f3260ff01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 36/41] fix: tracing a zero vector ends at the starting point
 instead of at an invalid one

---
 src/surface/trace_geodesic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 69b24dd..2cc3234 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -708,6 +708,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInFace();
     geom.unrequireEdgeLengths();
 
+    result.endPoint = startP;
     result.endingDir = Vector2::zero();
     result.length = 0;
 
@@ -785,6 +786,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From cf1aa2fe6783da81ef398e259bec6c4b6fdac251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 37/41] fix: exact geodesic queries at unreached points do not
 use uninitialized intervals and source indices

---
 src/surface/exact_geodesics.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e34237e..cf8c8e5 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -92,6 +92,8 @@ void GeodesicAlgorithmExact::best_point_on_the_edge_set(const SurfacePoint& poin
                                                         double& best_total_distance, double& best_interval_position,
                                                         bool verbose) const {
 
+  best_interval = nullptr;
+  best_interval_position = 0.;
   best_total_distance = 1e100;
   for (Edge e : storage) {
     if (verbose) {
@@ -1081,7 +1083,7 @@ Vector2 GeodesicAlgorithmExact::getDistanceGradient(const SurfacePoint& point) c
     closestPoint = static_cast<SurfacePoint>(m_sources[visibleSource]);
   } else {
     double best_interval_position;
-    unsigned best_source_index;
+    unsigned best_source_index = std::numeric_limits<unsigned>::max();
     double best_source_distance;
     const_interval_pointer best_interval;
 
@@ -1095,6 +1097,11 @@ Vector2 GeodesicAlgorithmExact::getDistanceGradient(const SurfacePoint& point) c
       best_point_on_the_edge_set(point, possible_edges, best_interval, best_source_distance, best_interval_position);
     }
 
+    // the distance function did not reach this point
+    if (best_source_distance >= GEODESIC_INF / 2.0) {
+      return Vector2::zero();
+    }
+
     if (best_interval) {
       // Identity point in interval which lies along the geodesic
       Edge edge = best_interval->edge();
@@ -1176,6 +1183,8 @@ const_interval_pointer GeodesicAlgorithmExact::best_first_interval(const Surface
 
   const_interval_pointer best_interval = nullptr;
   best_total_distance = GEODESIC_INF;
+  best_interval_position = 0.;
+  best_source_index = std::numeric_limits<unsigned>::max();
 
   switch (point.type) {
   case SurfacePointType::Vertex: {
-- 
2.43.0


From 5b3e5bf5323df89bed8194eabf050daf89ee206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 38/41] fix: loadDenseMatrix rejects a file with fewer rows or
 columns than its header states

---
 .../numerical/linear_algebra_utilities.ipp       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 4cec3f9..37b7ace 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -522,7 +522,8 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
   getline(in, line);
   std::stringstream ss(line);
   std::string token, matrixType;
-  int rows, cols;
+  int rows = -1;
+  int cols = -1;
   ss >> token >> matrixType >> rows >> cols;
   if (token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
     std::cout << "Error: first line of file must be of the form # dense cols rows." << std::endl;
@@ -532,17 +533,20 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
 
   DenseMatrix<T> M(rows, cols);
 
-  int iRow = 0;
   // Parse matrix entries
-  while (getline(in, line)) {
+  for (int iRow = 0; iRow < rows; iRow++) {
+    if (!getline(in, line)) {
+      throw std::runtime_error("failed to parse matrix: fewer rows than stated");
+    }
     std::stringstream ss(line);
     // Read entries
-    T val;
     for (int iCol = 0; iCol < cols; iCol++) {
-      ss >> val;
+      T val;
+      if (!(ss >> val)) {
+        throw std::runtime_error("failed to parse matrix: fewer columns than stated");
+      }
       M(iRow, iCol) = val;
     }
-    iRow++;
   }
 
   return M;
-- 
2.43.0


From aaac3f67b51876490b2b815c91a39b9a674840b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 39/41] fix: exact geodesics forget the stop points of earlier
 propagations

set_stop_conditions() only cleared the stop vertices when called without any,
so a second propagate() with stop points kept going until the stop points of
the first were reached as well.
---
 src/surface/exact_geodesics.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index cf8c8e5..957fd56 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1352,10 +1352,9 @@ IntervalList GeodesicAlgorithmExact::getEdgeIntervals(Edge e) const { return m_e
 void GeodesicAlgorithmExact::set_stop_conditions(const std::vector<SurfacePoint>& stop_points, double stop_distance) {
   m_max_propagation_distance = stop_distance;
 
-  if (stop_points.empty()) {
-    m_stop_vertices.clear();
-    return;
-  }
+  // Forget the stop points of any previous propagation
+  m_stop_vertices.clear();
+  if (stop_points.empty()) return;
 
   m_stop_vertices.reserve(stop_points.size());
 
-- 
2.43.0


From 487cdf69328b671caf8775c7bd13e60a1a94abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 40/41] fix: FMMDistance uses the opposite edge in the distance
 of a face point to its corners

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..85a7e8c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -170,9 +170,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From 8ad9f5cfaf6c52f0920d8a3d961cb94eb890afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 41/41] fix: lengths and areas of degenerate triangles are
 zero, not NaN

---
 include/geometrycentral/surface/barycentric_vector.ipp | 4 ++--
 src/surface/barycentric_vector.cpp                     | 5 +++--
 src/surface/embed_convex.cpp                           | 2 +-
 src/surface/embedded_geometry_interface.cpp            | 4 ++--
 src/surface/fast_marching_method.cpp                   | 6 +++---
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..927d3d5 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -488,12 +488,12 @@ inline double BarycentricVector::norm(IntrinsicGeometryInterface& geom) const {
     double l_ij = geom.edgeLengths[face.halfedge().edge()];
     double l_jk = geom.edgeLengths[face.halfedge().next().edge()];
     double l_ki = geom.edgeLengths[face.halfedge().next().next().edge()];
-    val = std::sqrt(-((l_ij * l_ij * ui * uj) + (l_jk * l_jk * uj * uk) + (l_ki * l_ki * uk * ui)));
+    val = std::sqrt(std::max(0., -((l_ij * l_ij * ui * uj) + (l_jk * l_jk * uj * uk) + (l_ki * l_ki * uk * ui))));
     break;
   }
   case BarycentricVectorType::Edge: {
     double l = geom.edgeLengths[edge];
-    val = std::sqrt(-l * l * edgeCoords[0] * edgeCoords[1]);
+    val = std::sqrt(std::max(0., -l * l * edgeCoords[0] * edgeCoords[1]));
     break;
   }
   case BarycentricVectorType::Vertex:
diff --git a/src/surface/barycentric_vector.cpp b/src/surface/barycentric_vector.cpp
index 5fb4d16..d373dca 100644
--- a/src/surface/barycentric_vector.cpp
+++ b/src/surface/barycentric_vector.cpp
@@ -21,7 +21,7 @@ BarycentricVector faceVectorRotate90(const BarycentricVector& w, IntrinsicGeomet
   double aj = l_jk * l_jk - l_ki * l_ki + l_ij * l_ij;
   double ak = l_ki * l_ki - l_ij * l_ij + l_jk * l_jk;
   double s = 0.5 * (l_ij + l_jk + l_ki);
-  double A = std::sqrt(s * (s - l_ij) * (s - l_jk) * (s - l_ki));
+  double A = std::sqrt(std::max(0., s * (s - l_ij) * (s - l_jk) * (s - l_ki)));
   Vector3 newCoords = {ak * uk - aj * uj, ai * ui - ak * uk, aj * uj - ai * ui};
   newCoords /= (4. * A);
   return BarycentricVector(w.face, newCoords);
@@ -41,7 +41,8 @@ BarycentricVector faceVectorRotate(const BarycentricVector& w, IntrinsicGeometry
   double lij2 = l_ij * l_ij;
   double ljk2 = l_jk * l_jk;
   double lki2 = l_ki * l_ki;
-  double A2 = -(l_ij - l_jk - l_ki) * (l_ij + l_jk - l_ki) * (l_ij - l_jk + l_ki) * (l_ij + l_jk + l_ki) / 16.;
+  double A2 =
+      std::max(0., -(l_ij - l_jk - l_ki) * (l_ij + l_jk - l_ki) * (l_ij - l_jk + l_ki) * (l_ij + l_jk + l_ki) / 16.);
   double bA = 2. * std::sqrt(A2); // 2A
   double qA2 = 4. * A2;           // 4A^2
   double ai2 = 0.5 * (lij2 - ljk2 + lki2);
diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 3b84819..a2456ac 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -707,7 +707,7 @@ void ConvexEmbedder::refreshVertexCoordinates() {
   double Laj = r[j.vertex()];
   double Lak = r[k.vertex()];
   double cosThetaI = interiorAngleCosine(l(jk), l(ki), l(ij));
-  double sinThetaI = sqrt(1. - cosThetaI * cosThetaI);
+  double sinThetaI = sqrt(max(0., 1. - cosThetaI * cosThetaI));
   x[i] = Vector3{0., 0., 0.};
   x[j] = Vector3{l(ij), 0., 0.};
   x[k] = Vector3{l(ki) * cosThetaI, l(ki) * sinThetaI, 0.};
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 0eedbff..b7c4f0a 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -476,7 +476,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::simplePolygonMassMatrix(const Face& f
     l[2] = std::sqrt(l2[2]);
     const double arg =
         (l[0] + (l[1] + l[2])) * (l[2] - (l[0] - l[1])) * (l[2] + (l[0] - l[1])) * (l[0] + (l[1] - l[2]));
-    const double area = 0.25 * std::sqrt(arg);
+    const double area = 0.25 * std::sqrt(std::max(0., arg));
     l[0] = 1.0 / 6.0 * area;
     l[1] = 1.0 / 12.0 * area;
     M(i1, i1) += 1.0 / 6.0 * area;
@@ -515,7 +515,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::simplePolygonStiffnessMatrix(const Fa
     l[2] = std::sqrt(l2[2]);
     const double arg =
         (l[0] + (l[1] + l[2])) * (l[2] - (l[0] - l[1])) * (l[2] + (l[0] - l[1])) * (l[0] + (l[1] - l[2]));
-    const double area = 0.5 * std::sqrt(arg);
+    const double area = 0.5 * std::sqrt(std::max(0., arg));
     if (area > 1e-7 * (l2[0] + l2[1] + l2[2])) {
       l[0] = 0.25 * (l2[1] + l2[2] - l2[0]) / area;
       l[1] = 0.25 * (l2[2] + l2[0] - l2[1]) / area;
diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 85a7e8c..271b304 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -173,9 +173,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
         double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
-        frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
-        frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
-        frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
+        frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(std::max(0., dist2_A)), vA));
+        frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(std::max(0., dist2_B)), vB));
+        frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(std::max(0., dist2_C)), vC));
         isSource[vA] = true;
         isSource[vB] = true;
         isSource[vC] = true;
-- 
2.43.0

