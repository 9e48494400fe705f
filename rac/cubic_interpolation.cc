// SOURCES:
#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;
static double sp(const double* p, double t) {
  double m1 = (p[2] - p[0]) / 2, m2 = (p[3] - p[1]) / 2;
  return (2*t*t*t-3*t*t+1)*p[1] + (t*t*t-2*t*t+t)*m1 + (3*t*t-2*t*t*t)*p[2] + (t*t*t-t*t)*m2;
}
static double dsp(const double* p, double t) {
  double m1 = (p[2] - p[0]) / 2, m2 = (p[3] - p[1]) / 2;
  return (6*t*t-6*t)*p[1] + (3*t*t-4*t+1)*m1 + (6*t-6*t*t)*p[2] + (3*t*t-2*t)*m2;
}
static int cl(int n, int lo, int hi) { return n < lo ? lo : n > hi - 1 ? hi - 1 : n; }
static double coord(int lo, int hi) {
  double x = lo - 3 + (hi - lo + 5) * rac::unit();
  if (rac::coin(0.3)) x = std::floor(x);
  return x;
}
template <typename T, int D, bool I> void one() {
  int b = rac::integer(-5, 5), n = rac::integer(1, 7), e = b + n;
  std::vector<T> data(D * n);
  std::vector<double> v(D * n);
  for (int i = 0; i < D * n; ++i) v[i] = data[i] = T(rac::integer(std::is_signed_v<T> ? -9 : 0, 9));
  rac::note("begin", b); rac::note("end", e); rac::note("data", v.data(), D * n);
  auto at = [&](int k, int i) { k = cl(k, b, e) - b; return double(data[I ? D * k + i : i * n + k]); };
  double x = coord(b, e); rac::note("x", x);
  Grid1D<T, D, I> g(data.data(), b, e);
  CubicInterpolator<Grid1D<T, D, I>> ci(g);
  double f[D + 1], d[D + 1], f2[D]; f[D] = d[D] = 77;
  ci.Evaluate(x, f, d); ci.Evaluate(x, f2);
  Jet<double, 2> xj(x, 0), fj[D]; xj.v[1] = 2.5; ci.Evaluate(xj, fj);
  int m = int(std::floor(x));
  for (int i = 0; i < D; ++i) {
    double p[4]; for (int k = 0; k < 4; ++k) p[k] = at(m - 1 + k, i);
    close("value", f[i], sp(p, x - m)); close("derivative", d[i], dsp(p, x - m));
    ok("value only overload agrees", f2[i] == f[i]);
    ok("Jet overload agrees", fj[i].a == f[i] && fj[i].v[0] == d[i] && fj[i].v[1] == d[i] * 2.5);
    if (x == m) close("interpolates samples", f[i], at(m, i));
    double gv[D]; int q = rac::integer(b - 3, e + 3); g.GetValue(q, gv);
    ok("GetValue clamps", gv[i] == at(q, i));
  }
  ok("no overwrite", f[D] == 77 && d[D] == 77);
}
template <typename T, int D, bool R, bool I> void two() {
  int rb = rac::integer(-4, 4), nr = rac::integer(1, 5), re = rb + nr, cb = rac::integer(-4, 4), nc = rac::integer(1, 5), ce = cb + nc;
  std::vector<T> data(D * nr * nc); std::vector<double> v(data.size());
  for (size_t i = 0; i < v.size(); ++i) v[i] = data[i] = T(rac::integer(std::is_signed_v<T> ? -9 : 0, 9));
  rac::note("row_begin", rb); rac::note("row_end", re); rac::note("col_begin", cb); rac::note("col_end", ce); rac::note("data", v.data(), int(v.size()));
  auto at = [&](int r, int c, int i) {
    r = cl(r, rb, re) - rb; c = cl(c, cb, ce) - cb; int n = R ? nc * r + c : nr * c + r;
    return double(data[I ? D * n + i : i * nr * nc + n]);
  };
  Grid2D<T, D, R, I> g(data.data(), rb, re, cb, ce);
  BiCubicInterpolator<Grid2D<T, D, R, I>> ci(g);
  double r = coord(rb, re), c = coord(cb, ce); rac::note("r", r); rac::note("c", c);
  double f[D + 1], dr[D], dc[D], f2[D]; f[D] = 77;
  ci.Evaluate(r, c, f, dr, dc); ci.Evaluate(r, c, f2);
  Jet<double, 2> a(r, 0), b(c, 1), fj[D]; ci.Evaluate(a, b, fj);
  int mr = int(std::floor(r)), mc = int(std::floor(c));
  for (int i = 0; i < D; ++i) {
    double q[4], dq[4];
    for (int k = 0; k < 4; ++k) { double p[4]; for (int l = 0; l < 4; ++l) p[l] = at(mr - 1 + k, mc - 1 + l, i); q[k] = sp(p, c - mc); dq[k] = dsp(p, c - mc); }
    close("value", f[i], sp(q, r - mr)); close("row derivative", dr[i], dsp(q, r - mr)); close("column derivative", dc[i], sp(dq, r - mr));
    ok("value only overload agrees", f2[i] == f[i]);
    ok("Jet overload agrees", fj[i].a == f[i] && fj[i].v[0] == dr[i] && fj[i].v[1] == dc[i]);
    double gv[D]; int x = rac::integer(rb - 3, re + 3), y = rac::integer(cb - 3, ce + 3); g.GetValue(x, y, gv);
    ok("GetValue clamps", gv[i] == at(x, y, i));
  }
  double o1[D], o2[D];
  ci.Evaluate(r, c, o1, dr, nullptr); ci.Evaluate(r, c, o2, nullptr, dc);
  for (int i = 0; i < D; ++i) ok("partial derivative requests agree", o1[i] == f[i] && o2[i] == f[i]);
  ok("no overwrite", f[D] == 77);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("1D", 1500, [] { one<double, 1, true>(); });
  rac::group("1D interleaved 3", 1500, [] { one<double, 3, true>(); });
  rac::group("1D stacked 3", 1500, [] { one<double, 3, false>(); });
  rac::group("1D int stacked 2", 1500, [] { one<int, 2, false>(); });
  rac::group("1D float", 500, [] { one<float, 2, true>(); });
  rac::group("2D row major", 1500, [] { two<double, 1, true, true>(); });
  rac::group("2D col major", 1500, [] { two<double, 1, false, true>(); });
  rac::group("2D row interleaved", 1500, [] { two<double, 2, true, true>(); });
  rac::group("2D row stacked", 1500, [] { two<double, 2, true, false>(); });
  rac::group("2D col interleaved", 1500, [] { two<int, 3, false, true>(); });
  rac::group("2D col stacked", 1500, [] { two<unsigned char, 2, false, false>(); });
  return rac::finish();
}
