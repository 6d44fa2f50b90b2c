// Instantiates the class templates whose members the analyses need in fully resolved form.
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/numerical/linear_solvers.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/utilities/dependent_quantity.h"
#include "geometrycentral/utilities/mesh_data.h"

namespace geometrycentral {
template class MeshData<surface::Vertex, double>;
template class MeshData<surface::Halfedge, double>;
template class MeshData<surface::Corner, double>;
template class MeshData<surface::Edge, double>;
template class MeshData<surface::Face, double>;
template class MeshData<surface::BoundaryLoop, double>;
template class MeshData<pointcloud::Point, double>;

template SparseMatrix<double> verticalStack(const std::vector<SparseMatrix<double>, Eigen::aligned_allocator<SparseMatrix<double>>>&);
template SparseMatrix<double> horizontalStack(const std::vector<SparseMatrix<double>, Eigen::aligned_allocator<SparseMatrix<double>>>&);
template BlockDecompositionResult<double> blockDecomposeSquare(const SparseMatrix<double>&, const Vector<bool>&, bool);
template void decomposeVector(BlockDecompositionResult<double>&, const Vector<double>&, Vector<double>&, Vector<double>&);
template Vector<double> reassembleVector(BlockDecompositionResult<double>&, const Vector<double>&, const Vector<double>&);
template void checkFinite(const Eigen::Matrix<double, 1, 3>&);
template void checkFinite(const Eigen::Matrix<double, 3, 1>&);
template void checkFinite(const Eigen::Matrix<double, 3, 3>&);
template void checkFinite(const SparseMatrix<double>&);
template void checkSymmetric(const SparseMatrix<double>&, double);
template void checkHermitian(const SparseMatrix<double>&, double);
template void checkHermitian(const SparseMatrix<std::complex<double>>&, double);
template void saveSparseMatrix(std::ostream&, SparseMatrix<double>&);
template SparseMatrix<double> loadSparseMatrix(std::istream&);
template void saveDenseMatrix(std::ostream&, DenseMatrix<double>&);
template DenseMatrix<double> loadDenseMatrix(std::istream&);
} // namespace geometrycentral

namespace gcx_driver {
using namespace geometrycentral::surface;
void registerAll(MutationManager& mm) {
  mm.registerEdgeFlipHandlers([](Edge) { return 1.; }, [](Edge, double) {});
  mm.registerEdgeFlipHandlers([](Edge) {}, [](Edge) {});
  mm.registerEdgeFlipPreHandler([](Edge) {});
  mm.registerEdgeFlipPostHandler([](Edge) {});
  mm.registerEdgeSplitHandlers([](Edge, double) { return 1.; }, [](Halfedge, Halfedge, double, double) {});
  mm.registerEdgeSplitHandlers([](Edge, double) {}, [](Halfedge, Halfedge, double) {});
  mm.registerEdgeSplitPreHandler([](Edge, double) {});
  mm.registerEdgeSplitPostHandler([](Halfedge, Halfedge, double) {});
  mm.registerFaceSplitHandlers([](Face, std::vector<double>) { return 1.; }, [](Vertex, double) {});
  mm.registerFaceSplitHandlers([](Face, std::vector<double>) {}, [](Vertex) {});
  mm.registerFaceSplitPreHandler([](Face, std::vector<double>) {});
  mm.registerFaceSplitPostHandler([](Vertex) {});
  mm.registerEdgeCollapseHandlers([](Edge, double) { return 1.; }, [](Vertex, double, double) {});
  mm.registerEdgeCollapseHandlers([](Edge, double) {}, [](Vertex, double) {});
  mm.registerEdgeCollapsePreHandler([](Edge, double) {});
  mm.registerEdgeCollapsePostHandler([](Vertex, double) {});
}
} // namespace gcx_driver
