#include "ceres/partitioned_matrix_view_impl.h"
using namespace ceres::internal;
std::unique_ptr<PartitionedMatrixViewBase> make_view(int k, const LinearSolver::Options& o, const BlockSparseMatrix& m) {
  if (k == 0) return std::make_unique<PartitionedMatrixView<>>(o, m);
  return std::make_unique<PartitionedMatrixView<2, 3, 6>>(o, m);
}
