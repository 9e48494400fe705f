// SOURCES: manifold.cc
#include "ceres/manifold.h"
#include "ceres/sphere_manifold.h"
#include "ceres/line_manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/rotation.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;
typedef std::vector<double> V;
static double nrm(const V& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
static V plus(const Manifold& m, const V& x, const V& d) {
  V r(m.AmbientSize() + 1, 77.0);
  ok("Plus succeeds", m.Plus(x.data(), d.data(), r.data()));
  ok("nothing outside the output is written", r.back() == 77.0);
  r.pop_back(); return r;
}
static V minus(const Manifold& m, const V& y, const V& x) {
  V r(m.TangentSize() + 1, 77.0);
  ok("Minus succeeds", m.Minus(y.data(), x.data(), r.data()));
  ok("nothing outside the output is written", r.back() == 77.0);
  r.pop_back(); return r;
}
// all contracts of one manifold; d with norms of each rotation part < pi
static void all(const Manifold& m, const V& x, const V& d, double scale) {
  int A = m.AmbientSize(), T = m.TangentSize();
  rac::note("x", x.data(), A); rac::note("delta", d.data(), T);
  V z(T, 0.0), y = plus(m, x, z);
  for (int i = 0; i < A; ++i) close("Plus(x, 0) = x", y[i], x[i], 1e-13 * 10, 0);
  y = plus(m, x, d);
  V b = minus(m, y, x);
  for (int i = 0; i < T; ++i) close("Minus(Plus(x, d), x) = d", b[i], d[i], 1e-7);
  V y2 = plus(m, x, b);
  for (int i = 0; i < A; ++i) ok("Plus(x, Minus(y, x)) = y", std::fabs(y2[i] - y[i]) <= 1e-7 * (scale + std::fabs(y[i])));
  V zz = minus(m, x, x);
  for (int i = 0; i < T; ++i) close("Minus(x, x) = 0", zz[i], 0, 1e-7);
  V P(A * T + 1, 7.0), M(A * T + 1, 7.0);
  ok("PlusJacobian succeeds", m.PlusJacobian(x.data(), P.data()));
  ok("MinusJacobian succeeds", m.MinusJacobian(x.data(), M.data()));
  ok("nothing outside the output is written", P.back() == 7.0 && M.back() == 7.0);
  for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) {
    double s = 0; for (int k = 0; k < A; ++k) s += M[i * A + k] * P[k * T + j];
    close("MinusJacobian PlusJacobian = I", s, i == j, 1e-8);
  }
  double h = 1e-5;
  for (int j = 0; j < T; ++j) {
    V dp(T, 0.0), dm(T, 0.0); dp[j] = h; dm[j] = -h;
    V a = plus(m, x, dp), c = plus(m, x, dm);
    for (int i = 0; i < A; ++i) ok("PlusJacobian is the derivative of Plus at 0",
      std::fabs((a[i] - c[i]) / (2 * h) - P[i * T + j]) <= 1e-6 * (scale + std::fabs(x[i])) , "entry " + std::to_string(i) + "," + std::to_string(j));
    V ma = minus(m, a, x), mc = minus(m, c, x);
    for (int i = 0; i < T; ++i) {
      double want = 0; for (int k = 0; k < A; ++k) want += M[i * A + k] * (a[k] - c[k]) / (2 * h);
      close("MinusJacobian is the derivative of Minus at y = x", (ma[i] - mc[i]) / (2 * h), want, 1e-5);
    }
  }
  int R = rac::integer(1, 4);
  V am(R * A), tm(R * T + 1, 5.0); rac::fill(am);
  ok("RightMultiply succeeds", m.RightMultiplyByPlusJacobian(x.data(), R, am.data(), tm.data()));
  ok("nothing outside the output is written", tm.back() == 5.0);
  for (int i = 0; i < R; ++i) for (int j = 0; j < T; ++j) {
    double s = 0, sc = 0; for (int k = 0; k < A; ++k) { s += am[i * A + k] * P[k * T + j]; sc += std::fabs(am[i * A + k] * P[k * T + j]); }
    close("RightMultiply is ambient matrix times PlusJacobian", tm[i * T + j], s, 1e-10, sc);
  }
}
static V dir(int n, double r) {
  V x(n); int k = rac::integer(0, 5);
  for (auto& q : x) q = rac::gauss();
  if (k == 0) for (int i = 0; i + 1 < n; ++i) x[i] *= std::pow(10.0, -rac::integer(3, 18));
  if (k == 1) { for (int i = 0; i + 1 < n; ++i) x[i] = 0; x[n - 1] = rac::coin() ? 1 : -1; }
  if (k == 2) { for (auto& q : x) q = 0; x[rac::integer(0, n - 1)] = rac::coin() ? 1 : -1; }
  double s = nrm(x); if (s < 1e-12) { x[n - 1] = 1; s = nrm(x); }
  for (auto& q : x) q *= r / s;
  return x;
}
static V step(int n) {
  double r = rac::coin(0.15) ? 3.1 : rac::coin(0.2) ? std::pow(10.0, -rac::integer(1, 9)) : 3.0 * rac::unit();
  if (rac::coin(0.05)) return V(n, 0.0);
  if (n == 0) return V();
  return dir(n, r);
}
static double radius() { return rac::coin() ? 1.0 : std::pow(10.0, rac::unit() * 8 - 5); }
template <class M> static void sphere(const M& m) {
  int n = m.AmbientSize(); double r = radius(); all(m, dir(n, r), step(n - 1), r);
  V x = dir(n, r), y = plus(m, x, step(n - 1));
  ok("the norm of x is preserved", std::fabs(nrm(y) - r) <= 1e-9 * r);
}
template <class M> static void line(const M& m) {
  int n = m.AmbientSize() / 2; double r = rac::coin() ? 1.0 : std::pow(10.0, rac::unit() * 2 - 1);
  V x(n), d = dir(n, r); for (auto& q : x) q = rac::tame();
  x.insert(x.end(), d.begin(), d.end());
  V s(n - 1), t = step(n - 1); for (auto& q : s) q = rac::coin(0.1) ? 0 : rac::tame();
  if (rac::coin(0.1)) s.assign(n - 1, 0.0);
  s.insert(s.end(), t.begin(), t.end());
  all(m, x, s, 1 + r);
}
template <class M> static void quat(const M& m, int w) {
  V x = dir(4, 1.0), d = step(3);
  for (auto& q : d) q *= 0.99;
  all(m, x, d, 1);
  V y = plus(m, x, d);
  close("unit quaternions stay unit", nrm(y), 1, 1e-12);
  // rotation semantics: Plus(x, d) = exp(d) * x with exp(d) = [cos|d|, sin|d| d/|d|]
  double t = nrm(d), s = t > 0 ? std::sin(t) / t : 1;
  double q[4] = {std::cos(t), s * d[0], s * d[1], s * d[2]}, xs[4], want[4];
  for (int i = 0; i < 4; ++i) xs[i] = x[w == 0 ? i : (i + 3) % 4];
  QuaternionProduct(q, xs, want);
  for (int i = 0; i < 4; ++i) close("Plus(x, d) = exp(d) x", y[w == 0 ? i : (i + 3) % 4], want[i], 1e-12);
}
struct Fn {
  template <class T> bool Plus(const T* x, const T* d, T* r) const { r[0] = x[0] + d[0]; r[1] = x[1] + d[1] * d[1] * T(0.5) + d[1]; r[2] = x[2] * x[0]; return true; }
  template <class T> bool Minus(const T* y, const T* x, T* r) const { r[0] = y[0] - x[0]; r[1] = sin(y[1]) - sin(x[1]) + y[2] * x[2]; return true; }
};
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Quaternion", 600, [] { quat(QuaternionManifold(), 0); });
  rac::group("EigenQuaternion", 600, [] { quat(EigenQuaternionManifold(), 3); });
  rac::group("Sphere", 800, [] { sphere(SphereManifold<2>()); sphere(SphereManifold<3>()); sphere(SphereManifold<4>()); sphere(SphereManifold<DYNAMIC>(rac::integer(2, 9))); });
  rac::group("Line", 600, [] { line(LineManifold<2>()); line(LineManifold<3>()); line(LineManifold<DYNAMIC>(rac::integer(2, 6))); });
  rac::group("Euclidean", 100, [] {
    int n = rac::integer(1, 8); V x(n), d(n); rac::fill(x); rac::fill(d); all(EuclideanManifold<DYNAMIC>(n), x, d, 10);
  });
  rac::group("Subset", 600, [] {
    int n = rac::integer(1, 9); std::vector<int> k; V x(n); rac::fill(x);
    for (int i = 0; i < n; ++i) if (rac::coin(0.4)) k.push_back(i);
    for (int i = int(k.size()) - 1; i > 0; --i) std::swap(k[i], k[rac::integer(0, i)]);
    SubsetManifold m(n, k);
    ok("tangent size", m.TangentSize() == n - int(k.size()) && m.AmbientSize() == n);
    V d(m.TangentSize()); rac::fill(d);
    all(m, x, d, 10);
    V y = plus(m, x, d);
    int j = 0;
    for (int i = 0; i < n; ++i) {
      bool fixed = std::find(k.begin(), k.end(), i) != k.end();
      ok("Plus moves exactly the free coordinates", y[i] == (fixed ? x[i] : x[i] + d[j]));
      if (!fixed) ++j;
    }
    std::vector<int> bad = k; int kind = rac::integer(0, 2);
    if (kind == 0) bad.push_back(n); else if (kind == 1) bad.push_back(-1); else { bad.push_back(0); bad.push_back(0); }
    ok("invalid constant sets are rejected", rac::check_fires([&] { SubsetManifold q(n, bad); }));
  });
  rac::group("Product", 500, [] {
    int n = rac::integer(2, 4);
    std::vector<int> k; if (rac::coin()) k.push_back(rac::integer(0, 2));
    ProductManifold<QuaternionManifold, SubsetManifold, SphereManifold<DYNAMIC>, EuclideanManifold<2>> m(
        QuaternionManifold(), SubsetManifold(3, k), SphereManifold<DYNAMIC>(n), EuclideanManifold<2>());
    V x = dir(4, 1), a(3), s = dir(n, 1), e(2); rac::fill(a); rac::fill(e);
    for (auto* q : {&a, &s, &e}) x.insert(x.end(), q->begin(), q->end());
    V d = step(3), da(3 - k.size()), ds = step(n - 1), de(2); rac::fill(da); rac::fill(de);
    for (auto* q : {&da, &ds, &de}) d.insert(d.end(), q->begin(), q->end());
    ok("sizes add up", m.AmbientSize() == 9 + n && m.TangentSize() == int(3 + 3 - k.size() + n - 1 + 2));
    all(m, x, d, 5);
  });
  rac::group("AutoDiffManifold", 300, [] {
    AutoDiffManifold<Fn, 3, 2> m;
    double x[3], d[2], y[3], P[6], M[6], t[2];
    for (auto& q : x) q = rac::tame("x"); for (auto& q : d) q = rac::tame("d");
    ok("Plus forwards", m.Plus(x, d, y) && y[0] == x[0] + d[0] && y[2] == x[2] * x[0]);
    ok("Minus forwards", m.Minus(y, x, t)); close("Minus value", t[0], y[0] - x[0]);
    ok("jacobians", m.PlusJacobian(x, P) && m.MinusJacobian(x, M));
    double WP[6] = {1, 0, 0, 1, 0, 0}, WM[6] = {1, 0, 0, 0, std::cos(x[1]), x[2]};
    for (int i = 0; i < 6; ++i) { close("PlusJacobian by differentiation", P[i], WP[i]); close("MinusJacobian by differentiation", M[i], WM[i]); }
  });
  return rac::finish();
}
