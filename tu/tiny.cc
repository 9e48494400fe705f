#include <Eigen/Core>
#include "cost_function.cc"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
using namespace ceres;
extern "C" {
int u_fun(const double* x, double* r, double* J);
void u_compute(const double* A, int n);
void u_solve(const double* g, double* s, int n);
}
namespace {
template <int R, int P> struct Fn {
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  bool operator()(const double* x, double* r, double* J) const { return u_fun(x, r, J); }
};
template <int R, int P> struct DynFn {
  using Scalar = double;
  enum { NUM_RESIDUALS = Eigen::Dynamic, NUM_PARAMETERS = Eigen::Dynamic };
  bool operator()(const double* x, double* r, double* J) const { return u_fun(x, r, J); }
  int NumResiduals() const { return R; }
  int NumParameters() const { return P; }
};
// An arbitrary linear solver: undefined functions with contracts.
template <int P> struct LS {
  template <class M> void compute(const M& A) {
    Eigen::Matrix<double, P, P> B = A;
    u_compute(B.data(), P);
  }
  template <class V> Eigen::Matrix<double, P, 1> solve(const V& g) const {
    Eigen::Matrix<double, P, 1> b = g, s;
    u_solve(b.data(), s.data(), P);
    return s;
  }
};
template <class S> void options(S& s, const double* o, int it) {
  s.options.max_num_iterations = it; s.options.gradient_tolerance = o[0]; s.options.parameter_tolerance = o[1];
  s.options.function_tolerance = o[2]; s.options.cost_threshold = o[3]; s.options.initial_trust_region_radius = o[4];
}
template <class S> void report(const S& s, double* out, int* st) {
  out[0] = s.summary.initial_cost; out[1] = s.summary.final_cost; out[2] = s.summary.gradient_max_norm;
  st[0] = s.summary.iterations; st[1] = int(s.summary.status);
}
template <int R, int P> inline void go(double* x, const double* o, int it, double* out, int* st, double* res, double* jac) {
  TinySolver<Fn<R, P>, R, P, LS<P>> s;
  options(s, o, it);
  Eigen::Matrix<double, P, 1> v = Eigen::Map<Eigen::Matrix<double, P, 1>>(x);
  s.Solve(Fn<R, P>(), &v);
  Eigen::Map<Eigen::Matrix<double, P, 1>> y(x);
  y = v;
  report(s, out, st);
  Eigen::Map<Eigen::Matrix<double, R, 1>> r(res);
  r = s.Residuals();
  Eigen::Map<Eigen::Matrix<double, R, P>> J(jac);
  J = s.Jacobian();
}
struct Poly {
  template <class T> bool operator()(const T* x, T* r) const {
    r[0] = x[0] * x[1] + T(3.0) * x[1];
    r[1] = x[0] * x[0] - x[1];
    r[2] = x[1] * x[1] * x[0];
    return true;
  }
};
struct DynPoly : Poly { int NumResiduals() const { return 3; } };
struct Bad { template <class T> bool operator()(const T*, T*) const { return false; } };
}
extern "C" {
int u_eval(const double* x, double* r, double* J);
void w_tiny11(double* x, const double* o, int it, double* out, int* st, double* res, double* jac) { go<1, 1>(x, o, it, out, st, res, jac); }
void w_tiny21(double* x, const double* o, int it, double* out, int* st, double* res, double* jac) { go<2, 1>(x, o, it, out, st, res, jac); }
void w_tiny22(double* x, const double* o, int it, double* out, int* st, double* res, double* jac) { go<2, 2>(x, o, it, out, st, res, jac); }
int w_auto(const double* x, double* r, double* J) { Poly p; TinySolverAutoDiffFunction<Poly, 3, 2> f(p); return f(x, r, J); }
int w_auto_dyn(const double* x, double* r, double* J) { DynPoly p; TinySolverAutoDiffFunction<DynPoly, Eigen::Dynamic, 2> f(p); return f.NumResiduals() == 3 ? f(x, r, J) : -1; }
int w_auto_bad(const double* x, double* r, double* J) { Bad p; TinySolverAutoDiffFunction<Bad, 3, 2> f(p); return f(x, r, J); }
}
namespace {
struct Cost final : public CostFunction {
  Cost(int nr, int np) { set_num_residuals(nr); mutable_parameter_block_sizes()->push_back(np); }
  bool Evaluate(double const* const* x, double* r, double** J) const override { return u_eval(x[0], r, J ? J[0] : nullptr); }
};
}

extern "C" {
int w_adapt_ss(const double* x, double* r, double* J) { Cost c(3, 2); TinySolverCostFunctionAdapter<3, 2> a(c); return a(x, r, J) + 2 * a.NumResiduals() + 20 * a.NumParameters(); }
int w_adapt_sd(const double* x, double* r, double* J) { Cost c(3, 2); TinySolverCostFunctionAdapter<3, Eigen::Dynamic> a(c); return a(x, r, J) + 2 * a.NumResiduals() + 20 * a.NumParameters(); }
int w_adapt_ds(const double* x, double* r, double* J) { Cost c(3, 2); TinySolverCostFunctionAdapter<Eigen::Dynamic, 2> a(c); return a(x, r, J) + 2 * a.NumResiduals() + 20 * a.NumParameters(); }
int w_adapt_dd(const double* x, double* r, double* J) { Cost c(3, 2); TinySolverCostFunctionAdapter<> a(c); return a(x, r, J) + 2 * a.NumResiduals() + 20 * a.NumParameters(); }
}
