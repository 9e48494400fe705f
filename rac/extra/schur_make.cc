// Instantiations of the templates under contract, in a translation unit of their own (the implementation header renames Eigen).
#include "ceres/schur_eliminator_impl.h"
#include "ceres/block_sparse_matrix.h"
using namespace ceres::internal;
std::unique_ptr<SchurEliminatorBase> make_eliminator(int k, const LinearSolver::Options& o) {
  if (k == 0) return std::make_unique<SchurEliminator<>>(o);
  if (k == 1) return std::make_unique<SchurEliminator<2, 3, 6>>(o);
  return std::make_unique<SchurEliminatorForOneFBlock<2, 3, 6>>();
}
