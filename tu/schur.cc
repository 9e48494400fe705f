#include "ceres/schur_eliminator_impl.h"
#include "ceres/partitioned_matrix_view_impl.h"
#include "block_sparse_matrix.cc"
#include "triplet_sparse_matrix.cc"
#include "compressed_row_sparse_matrix.cc"
#include "block_structure.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "block_random_access_matrix.cc"
#include "block_random_access_dense_matrix.cc"
#include "parallel_vector_ops.cc"
#include "parallel_utils.cc"
#include "block_random_access_diagonal_matrix.cc"
#include "blocks.h"
namespace {
template <class E> __attribute__((always_inline)) inline void schur(ContextImpl* ctx, int threads, int ne, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v,
                               const double* b, const double* D, const double* z, double* y, double* S, double* rhs) {
  auto A = blocks(nr, rs, nc, cs, count, cell, v);
  LinearSolver::Options o;
  o.context = ctx;
  o.num_threads = threads;
  auto make = [&] { if constexpr (std::is_default_constructible_v<E>) return std::make_unique<E>(); else return std::make_unique<E>(o); };
  auto ep = make();
  E& e = *ep;
  e.Init(ne, true, A->block_structure());
  std::vector<Block> fb;
  int p = 0;
  for (int i = ne; i < nc; ++i) { fb.emplace_back(cs[i], p); p += cs[i]; }
  BlockRandomAccessDenseMatrix lhs(fb, ctx, threads);
  e.Eliminate(BlockSparseMatrixData(*A), b, D, &lhs, rhs);
  for (int i = 0; i < p * p; ++i) S[i] = lhs.values()[i];
  e.BackSubstitute(BlockSparseMatrixData(*A), b, D, z, y);
}
template <class V> __attribute__((always_inline)) inline void view(ContextImpl* ctx, int threads, int ne, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v,
                               int op, const double* x, double* y, int* sizes) {
  auto A = blocks(nr, rs, nc, cs, count, cell, v);
  if (threads > 1) A->AddTransposeBlockStructure();
  LinearSolver::Options o;
  o.context = ctx;
  o.num_threads = threads;
  o.elimination_groups.push_back(ne);
  V w(o, *A);
  sizes[0] = w.num_col_blocks_e(); sizes[1] = w.num_col_blocks_f(); sizes[2] = w.num_cols_e(); sizes[3] = w.num_cols_f(); sizes[4] = w.num_rows(); sizes[5] = w.num_cols();
  if (op == 0) w.RightMultiplyAndAccumulateE(x, y);
  if (op == 1) w.RightMultiplyAndAccumulateF(x, y);
  if (op == 2) w.LeftMultiplyAndAccumulateE(x, y);
  if (op == 3) w.LeftMultiplyAndAccumulateF(x, y);
  if (op == 4 || op == 5) {
    auto d = op == 4 ? w.CreateBlockDiagonalEtE() : w.CreateBlockDiagonalFtF();
    const auto* s = d->block_structure();
    for (int i = 0; i < s->rows.size(); ++i) {
      sizes[6 + 4 * i] = s->rows[i].cells.size() == 1 ? s->rows[i].cells[0].block_id : -1;
      sizes[7 + 4 * i] = s->rows[i].cells[0].position;
      sizes[8 + 4 * i] = s->rows[i].block.size;
      sizes[9 + 4 * i] = s->cols[i].position;
    }
    for (int i = 0; i < d->num_nonzeros(); ++i) y[i] = d->values()[i];
  }
}
}
#define ARGS ContextImpl *ctx, int threads, int ne, int nr, const int *rs, int nc, const int *cs, const int *count, const int *cell, const double *v
#define PASS ctx, threads, ne, nr, rs, nc, cs, count, cell, v
extern "C" {
#define SCHUR(name, ...) \
  void w_schur_##name(ARGS, const double* b, const double* D, const double* z, double* y, double* S, double* rhs) { schur<__VA_ARGS__>(PASS, b, D, z, y, S, rhs); }
#define VIEW(name, ...) \
  void w_view_##name(ARGS, int op, const double* x, double* y, int* sizes) { view<PartitionedMatrixView<__VA_ARGS__>>(PASS, op, x, y, sizes); }
SCHUR(222, SchurEliminator<2, 2, 2>)
SCHUR(ddd, SchurEliminator<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>)
SCHUR(one, SchurEliminatorForOneFBlock<2, 3, 2>)
VIEW(222, 2, 2, 2)
VIEW(ddd, Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic)
}
