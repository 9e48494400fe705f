#include "cost_function.cc"
#include "first_order_function.cc"
#include "conditioned_cost_function.cc"
#include "normal_prior.cc"
#include "dynamic_cost_function_to_functor.cc"
#include "ceres/autodiff_cost_function.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/cost_function_to_functor.h"
using namespace ceres;
extern "C" {
// user functors: values only, and values with derivatives (m directions; dx, dr are coordinate-major)
int u_f(int n, const double* x, double* r, int nr);
int u_j(int n, int m, const double* x, const double* dx, double* r, double* dr, int nr);
// user cost function of blocks 2 and 1 with two residuals; a and b are the requested Jacobian blocks or null
int u_cost(const double* x, const double* y, double* r, double* a, double* b);
// conditioner k: value and, if requested, derivative
int u_cond(int k, double x, double* r, double* d);
}
namespace {
inline bool call(int n, const double* const* p, double* r, int nr) {
  double x[8];
  for (int i = 0; i < n; ++i) x[i] = *p[i];
  return u_f(n, x, r, nr);
}
template <int M> inline bool call(int n, const Jet<double, M>* const* p, Jet<double, M>* r, int nr) {
  double x[8], dx[64], v[4], dv[64];
  for (int i = 0; i < n; ++i) { x[i] = p[i]->a; for (int k = 0; k < M; ++k) dx[i * M + k] = p[i]->v[k]; }
  if (!u_j(n, M, x, dx, v, dv, nr)) return false;
  for (int i = 0; i < nr; ++i) { r[i].a = v[i]; for (int k = 0; k < M; ++k) r[i].v[k] = dv[i * M + k]; }
  return true;
}
struct F2 {
  template <class T> bool operator()(const T* x, const T* y, T* r) const { const T* p[] = {x, x + 1, y}; return call(3, p, r, 2); }
};
struct D2 {
  template <class T> bool operator()(T const* const* q, T* r) const { const T* p[] = {q[0], q[0] + 1, q[1]}; return call(3, p, r, 2); }
};
struct D3 {
  template <class T> bool operator()(T const* const* q, T* r) const { const T* p[] = {q[0], q[0] + 1, q[1], q[2], q[2] + 1}; return call(5, p, r, 2); }
};
struct C2 {
  template <class T> bool operator()(const T* x, T* r) const { const T* p[] = {x, x + 1}; return call(2, p, r, 1); }
};
template <class C> inline int code(const C& c) {
  int v = 2 * c.num_residuals() + 20 * int(c.parameter_block_sizes().size()), m = 100;
  for (int s : c.parameter_block_sizes()) { v += m * s; m *= 10; }
  return v;
}
template <int S> inline int dyn(const double* const* x, double* r, double** J) {
  D2 f;
  DynamicAutoDiffCostFunction<D2, S> c(&f, DO_NOT_TAKE_OWNERSHIP);
  c.AddParameterBlock(2); c.AddParameterBlock(1); c.SetNumResiduals(2);
  return c.Evaluate(x, r, J) + code(c);
}
template <int S> inline int dyn3(const double* const* x, double* r, double** J) {
  D3 f;
  DynamicAutoDiffCostFunction<D3, S> c(&f, DO_NOT_TAKE_OWNERSHIP);
  c.AddParameterBlock(2); c.AddParameterBlock(1); c.AddParameterBlock(2); c.SetNumResiduals(2);
  return c.Evaluate(x, r, J) + code(c);
}
struct Cost : SizedCostFunction<2, 2, 1> {
  bool Evaluate(double const* const* p, double* r, double** J) const override { return u_cost(p[0], p[1], r, J ? J[0] : nullptr, J ? J[1] : nullptr); }
};
struct Cond : SizedCostFunction<1, 1> {
  int k;
  bool Evaluate(double const* const* p, double* r, double** J) const override { return u_cond(k, p[0][0], r, J ? J[0] : nullptr); }
};
template <int M, class G> inline int tofunctor(const G& g, const double* x, const double* dx, double* r, double* dr) {
  Jet<double, M> p[3], q[2];
  for (int i = 0; i < 3; ++i) { p[i].a = x[i]; for (int k = 0; k < M; ++k) p[i].v[k] = dx[i * M + k]; }
  if (!g(p, q)) return 0;
  for (int i = 0; i < 2; ++i) { r[i] = q[i].a; for (int k = 0; k < M; ++k) dr[i * M + k] = q[i].v[k]; }
  return 1;
}
}
extern "C" {
int w_auto(const double* const* x, double* r, double** J) { F2 f; AutoDiffCostFunction<F2, 2, 2, 1> c(&f, DO_NOT_TAKE_OWNERSHIP); return c.Evaluate(x, r, J) + code(c); }
int w_auto_dynamic(const double* const* x, double* r, double** J) { F2 f; AutoDiffCostFunction<F2, DYNAMIC, 2, 1> c(&f, 2, DO_NOT_TAKE_OWNERSHIP); return c.Evaluate(x, r, J) + code(c); }
int w_dyn1(const double* const* x, double* r, double** J) { return dyn<1>(x, r, J); }
int w_dyn2(const double* const* x, double* r, double** J) { return dyn<2>(x, r, J); }
int w_dyn4(const double* const* x, double* r, double** J) { return dyn<4>(x, r, J); }
int w_dynx1(const double* const* x, double* r, double** J) { return dyn3<1>(x, r, J); }
int w_dynx2(const double* const* x, double* r, double** J) { return dyn3<2>(x, r, J); }
int w_dynx3(const double* const* x, double* r, double** J) { return dyn3<3>(x, r, J); }
int w_dynx4(const double* const* x, double* r, double** J) { return dyn3<4>(x, r, J); }
int w_first(const double* x, double* r, double* g) { C2 f; AutoDiffFirstOrderFunction<C2, 2> c(&f, DO_NOT_TAKE_OWNERSHIP); return c.Evaluate(x, r, g) + 2 * c.NumParameters(); }
int w_tofunctor(const double* x, const double* dx, double* r, double* dr) {
  CostFunctionToFunctor<2, 2, 1> g(new Cost);
  return tofunctor<2>([&](const Jet<double, 2>* p, Jet<double, 2>* q) { return g(p, p + 2, q); }, x, dx, r, dr);
}
int w_tofunctor_dynamic_residuals(const double* x, const double* dx, double* r, double* dr) {
  CostFunctionToFunctor<DYNAMIC, 2, 1> g(new Cost);
  return tofunctor<3>([&](const Jet<double, 3>* p, Jet<double, 3>* q) { return g(p, p + 2, q); }, x, dx, r, dr);
}
int w_tofunctor_dynamic(const double* x, const double* dx, double* r, double* dr) {
  DynamicCostFunctionToFunctor g(new Cost);
  return tofunctor<2>([&](const Jet<double, 2>* p, Jet<double, 2>* q) { const Jet<double, 2>* b[] = {p, p + 2}; return g(b, q); }, x, dx, r, dr);
}
int w_tofunctor_value(const double* x, double* r) { CostFunctionToFunctor<2, 2, 1> g(new Cost); return g(x, x + 2, r); }
int w_tofunctor_value_dynamic(const double* x, double* r) { DynamicCostFunctionToFunctor g(new Cost); const double* p[] = {x, x + 2}; return g(p, r); }
// conditioners: bit k of mask says whether residual k has one
int w_conditioned(int mask, const double* const* x, double* r, double** J) {
  Cost c; Cond d[2]; d[0].k = 0; d[1].k = 1;
  std::vector<CostFunction*> v(2);
  v[0] = mask & 1 ? &d[0] : nullptr; v[1] = mask & 2 ? &d[1] : nullptr;
  ConditionedCostFunction q(&c, v, DO_NOT_TAKE_OWNERSHIP);
  return q.Evaluate(x, r, J) + code(q);
}
int w_prior(const double* a, const double* b, const double* const* x, double* r, double** J) {
  Matrix A(2, 3); Vector B(3);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) A(i, j) = a[3 * i + j];
  for (int j = 0; j < 3; ++j) B(j) = b[j];
  NormalPrior p(A, B);
  return p.Evaluate(x, r, J) + code(p);
}
}
