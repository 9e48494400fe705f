#include "ceres/conjugate_gradients_solver.h"
#include "parallel_vector_ops.cc"
#include "linear_operator.cc"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
void u_lhs(const double* x, double* y);
void u_pre(const double* x, double* y);
void u_mark(const double* b, const double* x, const double* p, const double* r, const double* z, const double* t);
}
namespace {
// Arbitrary operators: undefined functions with contracts.
struct Lhs final : ConjugateGradientsLinearOperator<Vector> { void RightMultiplyAndAccumulate(const Vector& x, Vector& y) override { u_lhs(x.data(), y.data()); } };
struct Pre final : ConjugateGradientsLinearOperator<Vector> { void RightMultiplyAndAccumulate(const Vector& x, Vector& y) override { u_pre(x.data(), y.data()); } };
}
extern "C" {
// out: termination, iterations
void w_cg(ContextImpl* ctx, int threads, int n, const double* b, double* x, double* s, int lo, int hi, int reset, double rtol, double qtol, int* out) {
  Vector rhs(n), sol(n), v[4];
  for (int i = 0; i < n; ++i) { rhs[i] = b[i]; sol[i] = x[i]; }
  for (int k = 0; k < 4; ++k) { v[k].resize(n); for (int i = 0; i < n; ++i) v[k][i] = s[k * n + i]; }
  Vector* sc[4] = {&v[0], &v[1], &v[2], &v[3]};
  ConjugateGradientsSolverOptions o;
  o.min_num_iterations = lo; o.max_num_iterations = hi; o.residual_reset_period = reset; o.r_tolerance = rtol; o.q_tolerance = qtol;
  o.context = ctx; o.num_threads = threads;
  Lhs A; Pre M;
  u_mark(rhs.data(), sol.data(), v[0].data(), v[1].data(), v[2].data(), v[3].data());
  auto r = ConjugateGradientsSolver<Vector>(o, A, rhs, M, sc, sol);
  out[0] = int(r.termination_type); out[1] = r.num_iterations;
  for (int i = 0; i < n; ++i) x[i] = sol[i];
}
}
