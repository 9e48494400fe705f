#include "cost_function.cc"
#include "first_order_function.cc"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
using namespace ceres;
extern "C" {
int u_f(const double* x, const double* y, double* r);
int u_c(const double* x, double* c);
}
namespace {
struct F2 { bool operator()(const double* x, const double* y, double* r) const { return u_f(x, y, r); } };
struct D2 { bool operator()(double const* const* p, double* r) const { return u_f(p[0], p[1], r); } };
struct C2 { bool operator()(const double* x, double* c) const { return u_c(x, c); } };
NumericDiffOptions opt(const double* o, int n) {
  NumericDiffOptions p;
  p.relative_step_size = o[0]; p.ridders_relative_initial_step_size = o[1]; p.max_num_ridders_extrapolations = n;
  p.ridders_epsilon = o[2]; p.ridders_step_shrink_factor = o[3];
  return p;
}
// Functors live on the caller's stack, so that no allocation is modelled for them.
template <NumericDiffMethodType M, int R> inline int go(const double* o, int n, const double* const* x, double* r, double** J) {
  F2 f;
  NumericDiffCostFunction<F2, M, R, 2, 1> c(&f, DO_NOT_TAKE_OWNERSHIP, 2, opt(o, n));
  return c.Evaluate(x, r, J) + 2 * c.num_residuals() + 20 * int(c.parameter_block_sizes().size()) + 100 * c.parameter_block_sizes()[0] + 1000 * c.parameter_block_sizes()[1];
}
template <NumericDiffMethodType M> inline int dyn(const double* o, int n, const double* const* x, double* r, double** J) {
  D2 f;
  DynamicNumericDiffCostFunction<D2, M> c(&f, DO_NOT_TAKE_OWNERSHIP, opt(o, n));
  c.AddParameterBlock(2);
  c.AddParameterBlock(1);
  c.SetNumResiduals(2);
  return c.Evaluate(x, r, J) + 2 * c.num_residuals() + 20 * int(c.parameter_block_sizes().size()) + 100 * c.parameter_block_sizes()[0] + 1000 * c.parameter_block_sizes()[1];
}
template <NumericDiffMethodType M, int P> inline int first(const double* o, int n, const double* x, double* r, double* g) {
  C2 f;
  NumericDiffFirstOrderFunction<C2, M, P> c(std::unique_ptr<C2>(&f), 2, DO_NOT_TAKE_OWNERSHIP, opt(o, n));
  return c.Evaluate(x, r, g) + 2 * c.NumParameters();
}
}
#define W(name, M) \
  int w_##name##_s(const double* o, int n, const double* const* x, double* r, double** J) { return go<M, 2>(o, n, x, r, J); } \
  int w_##name##_d(const double* o, int n, const double* const* x, double* r, double** J) { return go<M, DYNAMIC>(o, n, x, r, J); } \
  int w_##name##_y(const double* o, int n, const double* const* x, double* r, double** J) { return dyn<M>(o, n, x, r, J); } \
  int w_##name##_f(const double* o, int n, const double* x, double* r, double* g) { return first<M, 2>(o, n, x, r, g); } \
  int w_##name##_g(const double* o, int n, const double* x, double* r, double* g) { return first<M, DYNAMIC>(o, n, x, r, g); }
extern "C" {
W(forward, FORWARD)
W(central, CENTRAL)
W(ridders, RIDDERS)
}
