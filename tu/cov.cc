// Covariance: the sparsity of the requested blocks, their look-up and lifting, and solves with R'R.
#include "ceres/covariance_impl.h"
#include "ceres/problem_impl.h"
#include "problem_impl.cc"
#include "covariance_impl.cc"
#include "compressed_row_sparse_matrix.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "cost_function.cc"
#include "manifold.cc"
#include "program.cc"
#include "residual_block.cc"
#include "array_utils.cc"
#include "parallel_utils.cc"
#include "ceres/compressed_col_sparse_matrix_utils.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
int u_plusj(int id, const double* x, double* j);
}
namespace {
struct Cost : CostFunction {
  bool Evaluate(double const* const* p, double* r, double** J) const override { return true; }
  void Sizes(int n, int nb, const int* sizes) { set_num_residuals(n); for (int i = 0; i < nb; ++i) mutable_parameter_block_sizes()->push_back(sizes[i]); }
};
struct Man : Manifold {
  int id, n, t;
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* y) const override { return true; }
  bool PlusJacobian(const double* x, double* j) const override { return u_plusj(id, x, j); }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
// At most four blocks; constant[i]: 1 constant, 2 not used by a residual.
struct Make {
  Man man[4];
  Cost cost[4];
  Problem::Options po;
  ProblemImpl problem;
  CovarianceImpl cov;
  const double* at[4];
  static Problem::Options options() {
    Problem::Options o;
    o.cost_function_ownership = DO_NOT_TAKE_OWNERSHIP;
    o.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
    static char fake[1024];
    o.context = reinterpret_cast<Context*>(fake);
    return o;
  }
  Make(int np, const int* size, const int* tangent, const int* constant, const int* order, double* x) : problem(options()), cov(Covariance::Options()) {
    double* q[4];
    for (int i = 0; i < np; ++i) { q[i] = x; at[i] = x; x += size[i]; }
    for (int k = 0; k < np; ++k) {
      int i = order[k];
      man[i].id = i; man[i].n = size[i]; man[i].t = tangent[i];
      problem.AddParameterBlock(q[i], size[i], tangent[i] < 0 ? nullptr : &man[i]);
      if (constant[i] == 1) problem.SetParameterBlockConstant(q[i]);
      if (constant[i] == 2) continue;
      cost[i].Sizes(1, 1, size + i);
      problem.AddResidualBlock(&cost[i], nullptr, q + i, 1);
    }
  }
  bool Sparsity(int n, const int* pairs) {
    std::vector<std::pair<const double*, const double*>> v;
    for (int i = 0; i < n; ++i) v.emplace_back(at[pairs[2 * i]], at[pairs[2 * i + 1]]);
    cov.problem_ = &problem;
    cov.is_valid_ = cov.ComputeCovarianceSparsity(v, &problem);
    cov.is_computed_ = true;
    return cov.is_valid_;
  }
};
}
#define ARGS int np, const int *size, const int *tangent, const int *constant, const int *order, double *x, int n, const int *pairs
#define MAKE Make m(np, size, tangent, constant, order, x)
extern "C" {
void w_rtr(int n, const int* rows, const int* cols, const double* values, int k, double* out) { SolveRTRWithSparseRHS<int>(n, rows, cols, values, k, out); }
// out: number of rows (-1: no matrix), row pointers, columns
int w_cov_sparsity(ARGS, int* out) {
  MAKE;
  if (!m.Sparsity(n, pairs)) return 0;
  auto* c = m.cov.covariance_matrix_.get();
  if (!c) { out[0] = -1; return 1; }
  *out++ = c->num_rows();
  for (int i = 0; i <= c->num_rows(); ++i) *out++ = c->rows()[i];
  for (int i = 0; i < c->rows()[c->num_rows()]; ++i) *out++ = c->cols()[i];
  return 1;
}
// `full`: the dense covariance (tangent sizes of the active blocks in address order)
int w_cov_block(ARGS, const double* full, int i, int j, int lift, double* out) {
  MAKE;
  if (!m.Sparsity(n, pairs)) return 2;
  auto* c = m.cov.covariance_matrix_.get();
  if (c) for (int r = 0; r < c->num_rows(); ++r) for (int k = c->rows()[r]; k < c->rows()[r + 1]; ++k) c->mutable_values()[k] = full[r * c->num_rows() + c->cols()[k]];
  return m.cov.GetCovarianceBlockInTangentOrAmbientSpace(m.at[i], m.at[j], lift, out);
}
int w_cov_matrix(ARGS, const double* full, int k, const int* ids, int lift, double* out) {
  MAKE;
  if (!m.Sparsity(n, pairs)) return 2;
  auto* c = m.cov.covariance_matrix_.get();
  if (c) for (int r = 0; r < c->num_rows(); ++r) for (int e = c->rows()[r]; e < c->rows()[r + 1]; ++e) c->mutable_values()[e] = full[r * c->num_rows() + c->cols()[e]];
  std::vector<const double*> v;
  for (int e = 0; e < k; ++e) v.push_back(m.at[ids[e]]);
  return m.cov.GetCovarianceMatrixInTangentOrAmbientSpace(v, lift, out);
}
}
