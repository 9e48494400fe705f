// SOURCES: cost_function.cc first_order_function.cc conditioned_cost_function.cc normal_prior.cc dynamic_cost_function_to_functor.cc
#include "ceres/autodiff_cost_function.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/normal_prior.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;
// residual i = sum_j l[i][j] x_j + q[i][j] x_j x_{j+i+1} + sin(x_j)
static double L[8][64], Q[8][64];
static std::vector<int> S;      // block sizes
static int N, NR, calls, fail_at;
template <class T> static bool poly(const T* const* b, T* r) {
  using std::sin;
  if (calls++ == fail_at) return false;
  std::vector<const T*> x;
  for (size_t k = 0; k < S.size(); ++k) for (int j = 0; j < S[k]; ++j) x.push_back(b[k] + j);
  for (int i = 0; i < NR; ++i) {
    T v(0.25 * i);
    for (int j = 0; j < N; ++j) v += L[i][j] * *x[j] + Q[i][j] * *x[j] * *x[(j + i + 1) % N] + sin(*x[j]);
    r[i] = v;
  }
  return true;
}
static double value(int i, const std::vector<double>& x) {
  double v = 0.25 * i;
  for (int j = 0; j < N; ++j) v += L[i][j] * x[j] + Q[i][j] * x[j] * x[(j + i + 1) % N] + std::sin(x[j]);
  return v;
}
static double der(int i, int k, const std::vector<double>& x) {
  double v = L[i][k] + std::cos(x[k]);
  for (int j = 0; j < N; ++j) { int m = (j + i + 1) % N; v += Q[i][j] * ((j == k ? x[m] : 0) + (m == k ? x[j] : 0)); }
  return v;
}
struct Dyn { template <class T> bool operator()(T const* const* b, T* r) const { return poly(b, r); } };
struct V1 { template <class T> bool operator()(const T* a, T* r) const { const T* b[] = {a}; return poly(b, r); } };
struct V2 { template <class T> bool operator()(const T* a, const T* c, T* r) const { const T* b[] = {a, c}; return poly(b, r); } };
struct V3 { template <class T> bool operator()(const T* a, const T* c, const T* d, T* r) const { const T* b[] = {a, c, d}; return poly(b, r); } };
static void setup(std::vector<int> sizes, int nr) {
  S = sizes; NR = nr; N = 0; calls = 0; fail_at = -1;
  for (int s : S) N += s;
  rac::note("blocks", double(S.size())); rac::note("n", N); rac::note("nr", nr);
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 64; ++j) { L[i][j] = rac::tame(); Q[i][j] = rac::tame(); }
}
// scale: value and derivative of an outer function per residual (conditioner), or null
template <class C> void check(const C& c, double (*g)(int, double) = nullptr, double (*h)(int, double) = nullptr) {
  std::vector<double> x(N), r(NR + 1, 777);
  for (auto& v : x) v = rac::tame();
  rac::note("x", x.data(), std::min(N, 6));
  std::vector<double> x0 = x;
  std::vector<std::vector<double>> J; std::vector<const double*> px; std::vector<double*> pj;
  int o = 0;
  for (int s : S) { px.push_back(x.data() + o); o += s; J.push_back(std::vector<double>(NR * s + 1, 777)); }
  double density = rac::coin(0.3) ? 1 : 0.5;
  std::string mask;
  for (auto& j : J) { bool w = rac::coin(density); pj.push_back(w ? j.data() : nullptr); mask += w ? '1' : '0'; }
  rac::note("mask", mask.empty() ? 0 : std::stod(mask));
  ok("number of residuals", c.num_residuals() == NR);
  ok("block sizes", std::vector<int>(c.parameter_block_sizes().begin(), c.parameter_block_sizes().end()) == S);
  bool none = rac::coin(0.1);
  ok("evaluates", c.Evaluate(px.data(), r.data(), none ? nullptr : pj.data()));
  ok("parameters are left alone", x == x0);
  for (int i = 0; i < NR; ++i) { double v = value(i, x); close("residual", r[i], g ? g(i, v) : v, 1e-11); }
  ok("nothing past the residuals", r[NR] == 777);
  o = 0;
  for (size_t b = 0; b < S.size(); ++b) {
    for (int i = 0; i < NR; ++i) for (int k = 0; k < S[b]; ++k) {
      double got = J[b][i * S[b] + k];
      if (pj[b] && !none) close("Jacobian", got, der(i, o + k, x) * (h ? h(i, value(i, x)) : 1), 1e-11);
      else ok("blocks that were not requested are not written", got == 777);
    }
    ok("nothing past the Jacobian", J[b][NR * S[b]] == 777);
    o += S[b];
  }
  int n = calls;
  if (n == 0) return;
  calls = 0; fail_at = rac::integer(0, n - 1);
  ok("fails when the functor fails", !c.Evaluate(px.data(), r.data(), none ? nullptr : pj.data()));
  calls = 0; fail_at = -1;
}
static std::vector<int> sizes(int most) { std::vector<int> s(rac::integer(1, most)); for (auto& v : s) v = rac::integer(1, 5); return s; }
template <int Stride> void dynamic() {
  setup(sizes(6), rac::integer(1, 5));
  DynamicAutoDiffCostFunction<Dyn, Stride> c;
  for (int s : S) c.AddParameterBlock(s);
  c.SetNumResiduals(NR);
  check(c);
}
static int kinds[8];
static double G(int i, double v) { return kinds[i] == 0 ? v : kinds[i] == 1 ? v * v + 1 : std::sin(v); }
static double H(int i, double v) { return kinds[i] == 0 ? 1 : kinds[i] == 1 ? 2 * v : std::cos(v); }
struct Cond : SizedCostFunction<1, 1> {
  int i;
  explicit Cond(int i) : i(i) {}
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    r[0] = G(i, p[0][0]);
    if (J && J[0]) J[0][0] = H(i, p[0][0]);
    return calls++ != fail_at;
  }
};
static CostFunction* inner() {
  auto* c = new DynamicAutoDiffCostFunction<Dyn, 5>;
  for (int s : S) c->AddParameterBlock(s);
  c->SetNumResiduals(NR);
  return c;
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("DynamicAutoDiffCostFunction", 3000, [] {
    switch (rac::integer(0, 4)) { case 0: dynamic<1>(); break; case 1: dynamic<2>(); break; case 2: dynamic<3>(); break; case 3: dynamic<4>(); break; case 4: dynamic<7>(); break; }
  });
  rac::group("AutoDiffCostFunction", 3000, [] {
    switch (rac::integer(0, 5)) {
      case 0: { setup({3}, 2); check(AutoDiffCostFunction<V1, 2, 3>()); break; }
      case 1: { setup({1, 4}, 5); check(AutoDiffCostFunction<V2, 5, 1, 4>()); break; }
      case 2: { setup({2, 3, 1}, 1); check(AutoDiffCostFunction<V3, 1, 2, 3, 1>()); break; }
      case 3: { setup({4, 2, 3}, rac::integer(1, 6)); check(AutoDiffCostFunction<V3, DYNAMIC, 4, 2, 3>(new V3, NR)); break; }
      case 4: { setup({9, 1}, 3); check(AutoDiffCostFunction<V2, 3, 9, 1>()); break; }
      case 5: { setup({40, 15}, 4); check(AutoDiffCostFunction<V2, 4, 40, 15>()); break; }     // more than fits on the stack
    }
  });
  rac::group("CostFunctionToFunctor", 2000, [] {
    switch (rac::integer(0, 2)) {
      case 0: { setup({2, 3, 1}, 3); using F = CostFunctionToFunctor<3, 2, 3, 1>; check(AutoDiffCostFunction<F, 3, 2, 3, 1>(new F(inner()))); break; }
      case 1: { setup({4, 2}, rac::integer(1, 5)); using F = CostFunctionToFunctor<DYNAMIC, 4, 2>; check(AutoDiffCostFunction<F, DYNAMIC, 4, 2>(new F(inner()), NR)); break; }
      case 2: { setup(sizes(4), rac::integer(1, 4)); using F = DynamicCostFunctionToFunctor; DynamicAutoDiffCostFunction<F, 3> a(new F(inner())); for (int s : S) a.AddParameterBlock(s); a.SetNumResiduals(NR); check(a); break; }
    }
  });
  rac::group("ConditionedCostFunction", 2000, [] {
    setup(sizes(4), rac::integer(1, 5));
    std::vector<CostFunction*> cond;
    for (int i = 0; i < NR; ++i) { kinds[i] = rac::integer(0, 2); cond.push_back(kinds[i] == 0 ? nullptr : new Cond(i)); }
    if (NR > 1 && kinds[0] && rac::coin()) { delete cond[1]; cond[1] = cond[0]; kinds[1] = kinds[0]; }     // a shared conditioner
    check(ConditionedCostFunction(inner(), cond, TAKE_OWNERSHIP), G, H);
  });
  rac::group("NormalPrior", 2000, [] {
    int n = rac::integer(1, 6), m = rac::integer(1, 6);
    Matrix A(m, n); Vector b(n), x(n), r(m); Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> J(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = rac::tame();
    for (int j = 0; j < n; ++j) { b(j) = rac::tame(); x(j) = rac::tame(); }
    NormalPrior p(A, b);
    const double* px = x.data(); double* pj = J.data();
    ok("sizes", p.num_residuals() == m && p.parameter_block_sizes().size() == 1 && p.parameter_block_sizes()[0] == n);
    ok("evaluates", p.Evaluate(&px, r.data(), &pj));
    for (int i = 0; i < m; ++i) { double s = 0; for (int j = 0; j < n; ++j) { s += A(i, j) * (x(j) - b(j)); ok("Jacobian", J(i, j) == A(i, j)); } close("residual", r(i), s, 1e-12); }
    r.setConstant(777);
    ok("without Jacobian", p.Evaluate(&px, r.data(), nullptr) && r(0) != 777);
    pj = nullptr;
    ok("without Jacobian block", p.Evaluate(&px, r.data(), &pj));
  });
  rac::group("AutoDiffFirstOrderFunction", 2000, [] {
    setup({6}, 1);
    AutoDiffFirstOrderFunction<V1, 6> f;
    std::vector<double> x(6), g(7, 777); double cost = 777;
    for (auto& v : x) v = rac::tame();
    ok("parameters", f.NumParameters() == 6);
    ok("evaluates", f.Evaluate(x.data(), &cost, g.data()));
    close("cost", cost, value(0, x), 1e-12);
    for (int k = 0; k < 6; ++k) close("gradient", g[k], der(0, k, x), 1e-12);
    ok("nothing past the gradient", g[6] == 777);
    cost = 777;
    ok("evaluates without gradient", f.Evaluate(x.data(), &cost, nullptr));
    close("cost", cost, value(0, x), 1e-12);
    calls = 0; fail_at = 0;
    ok("fails with the functor", !f.Evaluate(x.data(), &cost, rac::coin() ? g.data() : nullptr));
  });
  return rac::finish();
}
