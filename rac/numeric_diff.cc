// SOURCES: cost_function.cc first_order_function.cc
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;
struct Poly { double c[3], l[3][12], q[3][12], t[3][12]; int kind; };
static Poly P;
static std::vector<std::vector<double>> A;   // evaluated points
static int fail_at = -1;
static double val(int i, const double* x, int n) {
  double v = P.c[i];
  for (int j = 0; j < n; ++j) { v += P.l[i][j] * x[j]; if (P.kind >= 1) v += P.q[i][j] * x[j] * x[(j + i) % n]; if (P.kind == 2) v += P.t[i][j] * std::sin(0.05 * x[j]); }
  return v;
}
static double der(int i, const double* x, int n, int k) {
  double v = P.l[i][k];
  if (P.kind >= 1) for (int j = 0; j < n; ++j) { int m = (j + i) % n; v += P.q[i][j] * ((j == k ? x[m] : 0) + (m == k ? x[j] : 0)); }
  if (P.kind == 2) v += 0.05 * P.t[i][k] * std::cos(0.05 * x[k]);
  return v;
}
static bool call(const std::vector<double>& x, double* r, int nr) {
  A.push_back(x);
  if (int(A.size()) - 1 == fail_at) return false;
  for (int i = 0; i < nr; ++i) r[i] = val(i, x.data(), int(x.size()));
  return true;
}
struct F { bool operator()(const double* a, const double* b, const double* c, double* r) const { return call({a[0], a[1], a[2], b[0], c[0], c[1]}, r, 3); } };
struct D { bool operator()(double const* const* p, double* r) const { const double *a = p[0], *b = p[1], *c = p[2]; return call({a[0], a[1], a[2], b[0], c[0], c[1]}, r, 3); } };
struct W { bool operator()(const double* a, const double* b, double* r) const { std::vector<double> v(a, a + 9); v.push_back(b[0]); v.push_back(b[1]); return call(v, r, 3); } };
struct WD { bool operator()(double const* const* p, double* r) const { return W()(p[0], p[1], r); } };
struct G { bool operator()(const double* a, double* r) const { return call({a, a + 4}, r, 1); } };
static void setup(bool first) {
  P.kind = rac::integer(0, 2);
  rac::note("kind", P.kind);
  for (int i = 0; i < 3; ++i) { P.c[i] = rac::tame(); for (int j = 0; j < 12; ++j) { P.l[i][j] = rac::tame(); P.q[i][j] = rac::tame(); P.t[i][j] = rac::tame(); } }
  A.clear();
  fail_at = -1;
}
// the points evaluated: x itself and points that differ from x in one coordinate
static void points(const std::vector<double>& x, const NumericDiffOptions& o, NumericDiffMethodType m, const std::vector<int>& wanted) {
  ok("the point itself is evaluated first", !A.empty() && A[0] == x);
  std::vector<int> seen(x.size(), 0);
  for (size_t k = 1; k < A.size(); ++k) {
    int d = -1, n = 0;
    for (size_t j = 0; j < x.size(); ++j) if (A[k][j] != x[j]) { d = int(j); ++n; }
    ok("one coordinate is perturbed at a time", n == 1);
    if (n == 1) {
      ++seen[d];
      double h = std::fabs(A[k][d] - x[d]);
      if (m != RIDDERS) close("step size", h, std::max(std::sqrt(std::numeric_limits<double>::epsilon()), std::fabs(x[d]) * o.relative_step_size), 1e-9, std::fabs(x[d]) * 1e-6 - 1 + 1e-7);
    }
  }
  for (size_t j = 0; j < x.size(); ++j) ok("exactly the requested coordinates are perturbed", (seen[j] > 0) == (wanted[j] != 0) && (m == RIDDERS || seen[j] == wanted[j] * (m == CENTRAL ? 2 : 1)));
}
static double tol(NumericDiffMethodType m) { return m == FORWARD ? (P.kind == 0 ? 1e-5 : 1e-2) : m == CENTRAL ? 1e-5 : P.kind == 2 ? 1e-5 : 1e-7; }
// size of the terms of the functions, which bounds their rounding error
static double mag(const double* x, int n) {
  double v = 0;
  for (int i = 0; i < 3; ++i) { double s = std::fabs(P.c[i]); for (int j = 0; j < n; ++j) s += std::fabs(P.l[i][j] * x[j]) + std::fabs(P.q[i][j] * x[j] * x[(j + i) % n]) + std::fabs(P.t[i][j]); v = std::max(v, s); }
  return v;
}
template <class C> void check(const C& c, NumericDiffMethodType m, const NumericDiffOptions& o, const std::vector<int>& sizes, int nr) {
  int n = 0; for (int s : sizes) n += s;
  std::vector<double> x(n);
  for (auto& v : x) v = rac::coin(0.1) ? 0.0 : rac::gauss() * (rac::coin(0.2) && P.kind < 2 ? 20 : 2);
  rac::note("x", x.data(), n);
  std::vector<const double*> px; std::vector<double*> pj; std::vector<std::vector<double>> J; std::vector<int> wanted;
  int s0 = 0;
  for (int s : sizes) { px.push_back(x.data() + s0); s0 += s; J.push_back(std::vector<double>(nr * s + 1, 777)); }
  for (size_t b = 0; b < sizes.size(); ++b) { bool w = rac::coin(0.75); pj.push_back(w ? J[b].data() : nullptr); for (int k = 0; k < sizes[b]; ++k) wanted.push_back(w); }
  std::vector<double> r(nr + 1, 777), x0 = x;
  ok("evaluates", c.Evaluate(px.data(), r.data(), pj.data()));
  ok("parameters are left alone", x == x0);
  points(x, o, m, wanted);
  s0 = 0;
  for (size_t b = 0; b < sizes.size(); ++b) {
    for (int i = 0; i < nr; ++i) for (int k = 0; k < sizes[b]; ++k) if (pj[b]) close("derivative", J[b][i * sizes[b] + k], der(i, x.data(), n, s0 + k), tol(m), mag(x.data(), n));
    ok("nothing past the Jacobian", J[b][nr * sizes[b]] == 777 && (pj[b] || J[b][0] == 777));
    s0 += sizes[b];
  }
  for (int i = 0; i < nr; ++i) close("residual", r[i], val(i, x.data(), n), 1e-12);
  ok("nothing past the residuals", r[nr] == 777);
  size_t calls = A.size();
  A.clear();
  ok("evaluates without derivatives", c.Evaluate(px.data(), r.data(), nullptr) && A.size() == 1);
  A.clear();
  fail_at = rac::integer(0, int(calls) - 1);
  rac::note("fail_at", fail_at);
  ok("a failing functor fails the evaluation", !c.Evaluate(px.data(), r.data(), pj.data()));
  ok("parameters are left alone on failure", x == x0);
}
template <NumericDiffMethodType M> void all() {
  setup(false);
  NumericDiffOptions o;
  if (rac::coin(0.3)) o.relative_step_size = std::pow(10.0, rac::integer(-7, -5));
  if (rac::coin(0.3)) o.max_num_ridders_extrapolations = rac::integer(6, 14);
  F f; D d;
  int k = rac::integer(0, 4);
  rac::note("class", k);
  if (k == 0) { NumericDiffCostFunction<F, M, 3, 3, 1, 2> c(&f, DO_NOT_TAKE_OWNERSHIP, 3, o); check(c, M, o, {3, 1, 2}, 3); }
  if (k == 1) { NumericDiffCostFunction<F, M, DYNAMIC, 3, 1, 2> c(&f, DO_NOT_TAKE_OWNERSHIP, 3, o); check(c, M, o, {3, 1, 2}, 3); }
  if (k == 2) { DynamicNumericDiffCostFunction<D, M> c(&d, DO_NOT_TAKE_OWNERSHIP, o); c.AddParameterBlock(3); c.AddParameterBlock(1); c.AddParameterBlock(2); c.SetNumResiduals(3); check(c, M, o, {3, 1, 2}, 3); }
  W w; WD wd;
  if (k == 3) { NumericDiffCostFunction<W, M, 3, 9, 2> c(&w, DO_NOT_TAKE_OWNERSHIP, 3, o); check(c, M, o, {9, 2}, 3); }
  if (k == 4) { DynamicNumericDiffCostFunction<WD, M> c(&wd, DO_NOT_TAKE_OWNERSHIP, o); c.AddParameterBlock(9); c.AddParameterBlock(2); c.SetNumResiduals(3); check(c, M, o, {9, 2}, 3); }
}
template <NumericDiffMethodType M, int N> void first() {
  setup(true);
  NumericDiffOptions o;
  NumericDiffFirstOrderFunction<G, M, N> c(std::make_unique<G>(), 4, TAKE_OWNERSHIP, o);
  std::vector<double> x(4), g(5, 777); double cost = 0;
  for (auto& v : x) v = rac::gauss() * 2;
  rac::note("x", x.data(), 4);
  ok("sizes", c.NumParameters() == 4);
  ok("evaluates", c.Evaluate(x.data(), &cost, g.data()));
  points(x, o, M, {1, 1, 1, 1});
  close("cost", cost, val(0, x.data(), 4), 1e-12);
  for (int k = 0; k < 4; ++k) close("gradient", g[k], der(0, x.data(), 4, k), tol(M), mag(x.data(), 4));
  ok("nothing past the gradient", g[4] == 777);
  size_t calls = A.size();
  A.clear();
  ok("evaluates without gradient", c.Evaluate(x.data(), &cost, nullptr) && A.size() == 1);
  A.clear();
  fail_at = rac::integer(0, int(calls) - 1);
  ok("a failing functor fails the evaluation", !c.Evaluate(x.data(), &cost, g.data()));
}
struct Noise { bool operator()(const double* a, double* r) const { ++n; r[0] = a[0] * a[0] * a[0] + 1e-3 * std::sin(1e6 * a[0]); return true; } mutable int n = 0; };
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("forward", 2500, [] { all<FORWARD>(); });
  rac::group("central", 2500, [] { all<CENTRAL>(); });
  rac::group("ridders", 2500, [] { all<RIDDERS>(); });
  rac::group("first order", 3000, [] {
    switch (rac::integer(0, 5)) {
      case 0: first<FORWARD, 4>(); break; case 1: first<CENTRAL, 4>(); break; case 2: first<RIDDERS, 4>(); break;
      case 3: first<FORWARD, DYNAMIC>(); break; case 4: first<CENTRAL, DYNAMIC>(); break; case 5: first<RIDDERS, DYNAMIC>(); break;
    }
  });
  rac::group("Ridders accuracy and call bound", 500, [] {
    Noise f;
    NumericDiffOptions o;
    o.max_num_ridders_extrapolations = rac::integer(1, 12);
    NumericDiffCostFunction<Noise, RIDDERS, 1, 1> n(&f, DO_NOT_TAKE_OWNERSHIP, 1, o);
    double x = 1 + rac::unit(), r, J; const double* px[1] = {&x}; double* pj[1] = {&J};
    rac::note("x", x); rac::note("n", o.max_num_ridders_extrapolations);
    ok("evaluates", n.Evaluate(px, &r, pj));
    ok("at most two calls per extrapolation", f.n <= 1 + 2 * o.max_num_ridders_extrapolations);
    ok("finite", std::isfinite(J));
  });
  return rac::finish();
}
