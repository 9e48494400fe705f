// SOURCES: cost_function.cc
#include <Eigen/Dense>
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "ceres/sized_cost_function.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;
using DM = Eigen::MatrixXd; using DV = Eigen::VectorXd;
struct Log { std::vector<DV> lin, trial; std::vector<bool> taken; int n = 0; };
struct Data { DM A; DV b, q; int kind; };
static Data D;
static Log L;
static DV value(const DV& x) {
  DV r = D.A * x - D.b;
  if (D.kind) for (int i = 0; i < r.size(); ++i) { double t = x[i % x.size()]; r[i] += D.q[i] * t * t * (D.kind == 2 ? t : 1) + (D.kind == 3 ? std::sin(3 * t) : 0); }
  return r;
}
static DM jac(const DV& x) {
  DM J = D.A;
  if (D.kind) for (int i = 0; i < J.rows(); ++i) { int k = i % int(x.size()); double t = x[k]; J(i, k) += D.q[i] * (D.kind == 2 ? 3 * t * t : 2 * t) + (D.kind == 3 ? 3 * std::cos(3 * t) : 0); }
  return J;
}
template <int R, int P, int m, int n> struct F {
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  int NumResiduals() const { return m; }
  int NumParameters() const { return n; }
  bool operator()(const double* x, double* r, double* J) const {
    DV v = Eigen::Map<const DV>(x, n);
    Eigen::Map<DV>(r, m) = value(v);
    if (J) { Eigen::Map<DM>(J, m, n) = jac(v); L.lin.push_back(v); if (!L.taken.empty()) L.taken.back() = true; } else { L.trial.push_back(v); L.taken.push_back(false); }
    ++L.n;
    return true;
  }
};
template <int R, int P, int m, int n, int MR = R, int MP = P> void run() {
  D.A.resize(m, n); D.b.resize(m); D.q.resize(m);
  for (int i = 0; i < m; ++i) { D.b[i] = rac::gauss(); D.q[i] = rac::gauss(); for (int j = 0; j < n; ++j) D.A(i, j) = rac::gauss() * (rac::coin(0.1) ? 30 : 1); }
  D.kind = rac::integer(0, 3);
  rac::note("kind", D.kind); rac::note("A", D.A.data(), m * n); rac::note("b", D.b.data(), m); rac::note("q", D.q.data(), m);
  L = Log();
  using Fn = F<R, P, m, n>;
  TinySolver<Fn, MR, MP> s;
  s.options.max_num_iterations = rac::coin(0.2) ? rac::integer(1, 5) : 80;
  if (rac::coin()) s.options.gradient_tolerance = 1e-3;
  if (rac::coin()) { s.options.function_tolerance = 0; s.options.parameter_tolerance = 1e-12; }
  s.options.initial_trust_region_radius = std::pow(10.0, rac::integer(-2, 6));
  if (rac::coin(0.2)) s.options.cost_threshold = 0.5;
  rac::note("iterations", s.options.max_num_iterations); rac::note("radius", s.options.initial_trust_region_radius);
  typename TinySolver<Fn, MR, MP>::ParameterVector x(n);
  for (int i = 0; i < n; ++i) x[i] = rac::gauss() * 2;
  DV x0 = x;
  rac::note("x0", x0.data(), n);
  auto sum = s.Solve(Fn(), &x);
  DV f0 = value(x0), f = value(x);
  using TS = TinySolver<Fn, MR, MP>;
  {  // every trial point follows from the documented damping schedule
    DV xc = x0, sc = (1.0 / (1.0 + jac(x0).colwise().norm().array())).matrix().transpose();
    double u = 1 / s.options.initial_trust_region_radius, nu = 2;
    for (size_t i = 0; i < L.trial.size() && i < 25; ++i) {   // rounding in rho accumulates in the damping
      DM Js = jac(xc) * sc.asDiagonal(), H = Js.transpose() * Js;
      DV fc = value(xc), g = -Js.transpose() * fc;
      DM Rg = H;
      for (int j = 0; j < n; ++j) Rg(j, j) += u * std::min(std::max(H(j, j), 1e-6), 1e32);
      Eigen::SelfAdjointEigenSolver<DM> es(Rg);
      double cond = es.eigenvalues()(n - 1) / std::max(es.eigenvalues()(0), 1e-300);
      if (!(cond < 1e7)) break;
      DV st = Rg.ldlt().solve(g), want = xc + sc.asDiagonal() * st;
      if (!ok("a trial point is x plus the damped step", (L.trial[i] - want).norm() <= 1e-5 * (want.norm() + xc.norm() + 1e-3), "trial " + std::to_string(i))) break;
      double change = fc.squaredNorm() - value(L.trial[i]).squaredNorm(), model = st.dot(2 * g - H * st);
      if (std::fabs(change) < 1e-4 * fc.squaredNorm() || model < 1e-4 * fc.squaredNorm() || !std::isfinite(change)) break;
      double rho = change / model, t = 2 * rho - 1;
      ok("a step is taken exactly when the cost decreases", L.taken[i] == (rho > 0));
      if (rho > 0) { xc = L.trial[i]; u *= std::max(1 / 3., 1 - t * t * t); nu = 2; } else { u *= nu; nu *= 2; }
    }
  }
  close("initial cost", sum.initial_cost, 0.5 * f0.squaredNorm(), 1e-12);
  close("final cost is that of x", sum.final_cost, 0.5 * f.squaredNorm(), 1e-12);
  ok("cost never increases", sum.final_cost <= sum.initial_cost * (1 + 1e-12));
  for (size_t i = 1; i < L.lin.size(); ++i) ok("every accepted step decreases the cost", value(L.lin[i]).squaredNorm() <= value(L.lin[i - 1]).squaredNorm() * (1 + 1e-12));
  ok("linearised at x", (L.lin.back() - x).norm() == 0);
  DM J = jac(x), J0 = jac(x0);
  ok("Residuals()", (s.Residuals() - f).norm() == 0);
  ok("Jacobian()", (s.Jacobian() - J).norm() <= 1e-12 * (1 + J.norm()));
  double gm = 0;
  for (int j = 0; j < n; ++j) gm = std::max(gm, std::fabs(J.col(j).dot(f)) / (1 + J0.col(j).norm()));
  close("gradient norm is that of x", sum.gradient_max_norm, gm, 1e-9, J.norm() * f.norm());
  ok("iterations within the limit", sum.iterations <= s.options.max_num_iterations);
  if (sum.status == TS::GRADIENT_TOO_SMALL) ok("gradient small", sum.gradient_max_norm < s.options.gradient_tolerance);
  if (sum.status == TS::COST_TOO_SMALL) ok("cost small", sum.final_cost < s.options.cost_threshold);
  if (sum.status == TS::HIT_MAX_ITERATIONS) ok("limit reached", sum.iterations == s.options.max_num_iterations);
  if (D.kind == 0 && s.options.max_num_iterations == 80 && m >= n && s.options.cost_threshold < 0.1 && s.options.initial_trust_region_radius >= 100 && s.options.gradient_tolerance < 1e-9 && sum.status != TS::HIT_MAX_ITERATIONS) {
    Eigen::JacobiSVD<DM> svd(D.A, Eigen::ComputeThinU | Eigen::ComputeThinV);
    if (svd.singularValues()[n - 1] > 0.1) {
      DV z = svd.solve(D.b);
      ok("linear problems are solved", 0.5 * f.squaredNorm() <= 0.5 * value(z).squaredNorm() + 1e-3);
    }
  }
  // a second solve from the result starts where the first ended
  auto s2 = s.Solve(Fn(), &x);
  close("solver can be reused", s2.initial_cost, sum.final_cost, 1e-12);
}
struct Fun {
  template <class T> bool operator()(const T* x, T* r) const { using std::sin; using std::exp; r[0] = x[0] * sin(x[1]); r[1] = exp(x[1]) - x[2]; r[2] = x[2] * x[2] * x[0]; r[3] = x[1]; return true; }
};
struct DynFun : Fun { int NumResiduals() const { return 4; } };
struct CF : SizedCostFunction<4, 3> {
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    const double* x = p[0];
    Fun()(x, r);
    if (J && J[0]) { double K[12] = {sin(x[1]), x[0] * cos(x[1]), 0, 0, exp(x[1]), -1, x[2] * x[2], 0, 2 * x[2] * x[0], 0, 1, 0}; std::copy(K, K + 12, J[0]); }
    return true;
  }
};
template <class A> void adapter(const char* name, const A& a) {
  double x[3] = {rac::tame("x0"), rac::tame("x1"), rac::tame("x2")}, r[5], J[13], R[4];
  r[4] = J[12] = 7;
  double* Jp[1]; double K[12]; Jp[0] = K; const double* xp[1] = {x};
  CF cf; cf.Evaluate(xp, R, Jp);
  ok(name, a(x, r, J));
  for (int i = 0; i < 4; ++i) { close(name, r[i], R[i], 1e-12); for (int j = 0; j < 3; ++j) close(name, J[j * 4 + i], K[i * 3 + j], 1e-12); }
  double r2[4];
  ok(name, a(x, r2, nullptr));
  for (int i = 0; i < 4; ++i) close(name, r2[i], R[i], 1e-12);
  ok(name, r[4] == 7 && J[12] == 7);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("fixed 2x2", 2000, [] { run<2, 2, 2, 2>(); });
  rac::group("fixed 3x1", 1000, [] { run<3, 1, 3, 1>(); });
  rac::group("fixed 6x3", 2000, [] { run<6, 3, 6, 3>(); });
  rac::group("fixed 2x3", 1000, [] { run<2, 3, 2, 3>(); });
  rac::group("dynamic 5x4", 2000, [] { run<-1, -1, 5, 4>(); });
  rac::group("dynamic rows 7x2", 1000, [] { run<-1, 2, 7, 2>(); });
  rac::group("dynamic columns 4x3", 1000, [] { run<4, -1, 4, 3>(); });
  rac::group("adapters", 2000, [] {
    Fun f; DynFun d; CF cf;
    adapter("TinySolverAutoDiffFunction", TinySolverAutoDiffFunction<Fun, 4, 3>(f));
    adapter("TinySolverAutoDiffFunction dynamic", TinySolverAutoDiffFunction<DynFun, Eigen::Dynamic, 3>(d));
    adapter("TinySolverCostFunctionAdapter", TinySolverCostFunctionAdapter<4, 3>(cf));
    adapter("TinySolverCostFunctionAdapter dynamic rows", TinySolverCostFunctionAdapter<Eigen::Dynamic, 3>(cf));
    adapter("TinySolverCostFunctionAdapter dynamic columns", TinySolverCostFunctionAdapter<4, Eigen::Dynamic>(cf));
    adapter("TinySolverCostFunctionAdapter dynamic", TinySolverCostFunctionAdapter<>(cf));
  });
  return rac::finish();
}
