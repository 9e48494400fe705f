// dynamic sizes only: the factory below would instantiate every specialisation
#ifndef CERES_RESTRICT_SCHUR_SPECIALIZATION
#define CERES_RESTRICT_SCHUR_SPECIALIZATION
#endif
#include "ceres/partitioned_matrix_view_impl.h"
#include "ceres/invert_psd_matrix.h"
#include "block_sparse_matrix.cc"
#include "triplet_sparse_matrix.cc"
#include "compressed_row_sparse_matrix.cc"
#include "block_structure.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "partitioned_matrix_view.cc"
#include "parallel_vector_ops.cc"
#include "parallel_utils.cc"
#include "preconditioner.cc"
#include "implicit_schur_complement.cc"
#include "power_series_expansion_preconditioner.cc"
#include "inner_product_computer.cc"
#include "blocks.h"
#define ARGS ContextImpl *ctx, int threads, int ne, int nr, const int *rs, int nc, const int *cs, const int *count, const int *cell, const double *v
extern "C" {
// op 0: S x, 1: the series operator, 2: back substitution, 3: right hand side, 4: the power series preconditioner
void w_isc(ARGS, int spse, const double* v1, const double* D1, const double* b1, const double* b, const double* D, int op, int terms, double tol, const double* x, double* y) {
  auto A = blocks(nr, rs, nc, cs, count, cell, v1 ? v1 : v);
  if (threads > 1) A->AddTransposeBlockStructure();
  LinearSolver::Options o;
  o.context = ctx;
  o.num_threads = threads;
  o.elimination_groups.push_back(ne);
  o.preconditioner_type = spse ? JACOBI : IDENTITY;
  ImplicitSchurComplement s(o);
  if (v1) {
    s.Init(*A, D1, b1);
    for (int i = 0; i < A->num_nonzeros(); ++i) A->mutable_values()[i] = v[i];
  }
  s.Init(*A, D, b);
  if (op == 0) s.RightMultiplyAndAccumulate(x, y);
  if (op == 1) s.InversePowerSeriesOperatorRightMultiplyAccumulate(x, y);
  if (op == 2) s.BackSubstitute(x, y);
  if (op == 3) for (int i = 0; i < s.num_cols(); ++i) y[i] = s.rhs()[i];
  if (op == 4) {
    Preconditioner::Options po;
    po.context = ctx;
    po.num_threads = threads;
    PowerSeriesExpansionPreconditioner p(&s, terms, tol, po);
    p.RightMultiplyAndAccumulate(x, y);
  }
}
int w_ipc(ARGS, int lower, int start, int end, double* out, int* rows, int* cols) {
  auto A = blocks(nr, rs, nc, cs, count, cell, v);
  const auto t = lower ? CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR : CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR;
  auto p = end < 0 ? InnerProductComputer::Create(*A, t) : InnerProductComputer::Create(*A, start, end, t);
  for (int k = 0; k < 2; ++k) {
    p->Compute();
    const auto& R = p->result();
    const int n = R.num_rows();
    for (int i = 0; i <= n; ++i) rows[i] = R.rows()[i];
    for (int i = 0; i < R.num_nonzeros(); ++i) { cols[i] = R.cols()[i]; out[i] = R.values()[i]; }
  }
  const auto& R = p->result();
  return R.num_nonzeros() * 10 + (R.storage_type() == t) + 2 * (R.num_rows() == R.num_cols());
}
void w_inv1(const double* m, double* o) { EigenTypes<1, 1>::MatrixRef w(o, 1, 1); w = InvertPSDMatrix<1>(true, EigenTypes<1, 1>::Matrix(m)); }
void w_inv2(const double* m, double* o) { EigenTypes<2, 2>::MatrixRef w(o, 2, 2); w = InvertPSDMatrix<2>(true, EigenTypes<2, 2>::Matrix(m)); }
void w_inv3(const double* m, double* o) { EigenTypes<3, 3>::MatrixRef w(o, 3, 3); w = InvertPSDMatrix<3>(true, EigenTypes<3, 3>::Matrix(m)); }
void w_inv4(const double* m, double* o) { EigenTypes<4, 4>::MatrixRef w(o, 4, 4); w = InvertPSDMatrix<4>(true, EigenTypes<4, 4>::Matrix(m)); }
void w_invd(int n, const double* m, double* o) { MatrixRef(o, n, n) = InvertPSDMatrix<Eigen::Dynamic>(true, Matrix(ConstMatrixRef(m, n, n))); }
void w_addinv(ContextImpl* ctx, int nc, const int* cs, const int* count, const int* cell, const double* v, const double* D, double* o) {
  auto A = blocks(nc, cs, nc, cs, count, cell, v);
  LinearSolver::Options op;
  op.context = ctx;
  ImplicitSchurComplement s(op);
  s.AddDiagonalAndInvert(D, A.get());
  for (int i = 0; i < A->num_nonzeros(); ++i) o[i] = A->values()[i];
}
}
