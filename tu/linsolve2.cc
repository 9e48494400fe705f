#include "block_jacobi_preconditioner.cc"
#include "block_random_access_matrix.cc"
#include "block_random_access_diagonal_matrix.cc"
#include "block_sparse_matrix.cc"
#include "triplet_sparse_matrix.cc"
#include "compressed_row_sparse_matrix.cc"
#include "block_structure.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "parallel_vector_ops.cc"
#include "parallel_utils.cc"
#include "preconditioner.cc"
#include "detect_structure.cc"
#include "dense_cholesky.cc"
#include "iterative_refiner.cc"
#include "ceres/linear_solver.h"
#include "cgnr_solver.cc"
#include "blocks.h"
#define ARGS ContextImpl *ctx, int threads, int ne, int nr, const int *rs, int nc, const int *cs, const int *count, const int *cell, const double *v
extern "C" {
void u_rm(const double* x, double* y);
void u_lm(const double* x, double* y);
int u_chol(const double* b, double* x);
}
namespace {
struct Any final : LinearOperator {
  int m, n;
  Any(int m, int n) : m(m), n(n) {}
  void RightMultiplyAndAccumulate(const double* x, double* y) const override { u_rm(x, y); }
  void LeftMultiplyAndAccumulate(const double* x, double* y) const override { u_lm(x, y); }
  int num_rows() const override { return m; }
  int num_cols() const override { return n; }
};
struct Chol final : DenseCholesky {
  LinearSolverTerminationType Factorize(int, double*, std::string*) override { return LinearSolverTerminationType::SUCCESS; }
  LinearSolverTerminationType Solve(const double* b, double* x, std::string*) override { return LinearSolverTerminationType(u_chol(b, x)); }
};
}
extern "C" {
void w_detect(int ne, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, int* out) {
  CompressedRowBlockStructure s;
  for (int i = 0; i < nc; ++i) s.cols.emplace_back(cs[i], 0);
  for (int i = 0; i < nr; ++i) {
    s.rows.emplace_back(count[i]);
    s.rows[i].block = Block(rs[i], 0);
    for (int j = 0; j < count[i]; ++j) s.rows[i].cells[j] = Cell(*cell++, 0);
  }
  DetectStructure(s, ne, out, out + 1, out + 2);
}
void w_jacobi(ARGS, int times, const double* D, const double* x, double* y) {
  auto A = blocks(nr, rs, nc, cs, count, cell, v);
  Preconditioner::Options o;
  o.context = ctx;
  o.num_threads = threads;
  BlockSparseJacobiPreconditioner p(o, *A);
  for (int i = 0; i < times; ++i) p.UpdateImpl(*A, D);
  p.RightMultiplyAndAccumulate(x, y);
}
// the values of the preconditioner before they are inverted
void w_crsjacobi(ARGS, int times, const double* D, const double* x, double* y) {
  auto B = blocks(nr, rs, nc, cs, count, cell, v);
  auto A = B->ToCompressedRowSparseMatrix();
  Preconditioner::Options o;
  o.context = ctx;
  o.num_threads = threads;
  BlockCRSJacobiPreconditioner p(o, *A);
  for (int i = 0; i < times; ++i) p.UpdateImpl(*A, D);
  p.RightMultiplyAndAccumulate(x, y);
}
int w_chol(int n, double* a, const double* b, double* x) {
  EigenDenseCholesky c;
  std::string m;
  return int(c.FactorAndSolve(n, a, b, x, &m));
}
int w_chol_factor(int n, double* a) {
  EigenDenseCholesky c;
  std::string m;
  return int(c.Factorize(n, a, &m));
}
void w_refine(int n, int times, const double* a, const double* b, double* x) {
  DenseIterativeRefiner r(times);
  Chol c;
  r.Refine(n, a, b, &c, x);
}
int w_refined(int n, int times, double* a, const double* b, double* x) {
  RefinedDenseCholesky c(std::make_unique<Chol>(), std::make_unique<DenseIterativeRefiner>(times));
  std::string m;
  c.Factorize(n, a, &m);
  return int(c.Solve(b, x, &m));
}
void w_cgnr(ContextImpl* ctx, int threads, int m, int n, const double* D, int times, const double* x, double* y) {
  Any A(m, n);
  CgnrLinearOperator o(A, D, ctx, threads);
  Vector vx(n), vy(n);
  for (int i = 0; i < n; ++i) { vx[i] = x[i]; vy[i] = y[i]; }
  for (int k = 0; k < times; ++k) o.RightMultiplyAndAccumulate(vx, vy);
  for (int i = 0; i < n; ++i) y[i] = vy[i];
}
}
