#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
using namespace ceres;
extern "C" void u_grid1(int n, double* f);
extern "C" void u_grid2(int r, int c, double* f);
namespace {
// An arbitrary user grid of dimension 2.
struct G1 { enum { DATA_DIMENSION = 2 }; void GetValue(int n, double* f) const { u_grid1(n, f); } };
struct G2 { enum { DATA_DIMENSION = 2 }; void GetValue(int r, int c, double* f) const { u_grid2(r, c, f); } };
typedef Jet<double, 2> J;
}
extern "C" {
void w_spline(const double* p, double x, double* f, double* d) {
  Eigen::Map<const Eigen::Vector2d> a(p), b(p + 2), c(p + 4), e(p + 6);
  CubicHermiteSpline<2>(a, b, c, e, x, f, d);
}
void w_cubic(double x, double* f, double* d) { G1 g; CubicInterpolator<G1> ci(g); ci.Evaluate(x, f, d); }
void w_cubic_f(double x, double* f) { G1 g; CubicInterpolator<G1> ci(g); ci.Evaluate(x, f); }
void w_cubic_jet(const double* x, double* f) {
  G1 g; CubicInterpolator<G1> ci(g); J a(x[0]); a.v[0] = x[1]; a.v[1] = x[2]; J o[2];
  ci.Evaluate(a, o);
  for (int i = 0; i < 2; ++i) { f[3 * i] = o[i].a; f[3 * i + 1] = o[i].v[0]; f[3 * i + 2] = o[i].v[1]; }
}
void w_bicubic(double r, double c, double* f, double* dr, double* dc) { G2 g; BiCubicInterpolator<G2> ci(g); ci.Evaluate(r, c, f, dr, dc); }
void w_bicubic_f(double r, double c, double* f) { G2 g; BiCubicInterpolator<G2> ci(g); ci.Evaluate(r, c, f); }
void w_bicubic_jet(const double* x, double* f) {
  G2 g; BiCubicInterpolator<G2> ci(g); J a(x[0]), b(x[3]); a.v[0] = x[1]; a.v[1] = x[2]; b.v[0] = x[4]; b.v[1] = x[5]; J o[2];
  ci.Evaluate(a, b, o);
  for (int i = 0; i < 2; ++i) { f[3 * i] = o[i].a; f[3 * i + 1] = o[i].v[0]; f[3 * i + 2] = o[i].v[1]; }
}
#define G1D(N, T, D, I) void w_g1_##N(const T* data, int b, int e, int n, double* f) { Grid1D<T, D, I> g(data, b, e); g.GetValue(n, f); }
G1D(d1, double, 1, true)
G1D(d3i, double, 3, true)
G1D(d3s, double, 3, false)
G1D(i2i, int, 2, true)
#define G2D(N, T, D, R, I) void w_g2_##N(const T* data, int rb, int re, int cb, int ce, int r, int c, double* f) { Grid2D<T, D, R, I> g(data, rb, re, cb, ce); g.GetValue(r, c, f); }
G2D(d1r, double, 1, true, true)
G2D(d1c, double, 1, false, true)
G2D(d2ri, double, 2, true, true)
G2D(d2rs, double, 2, true, false)
G2D(d2ci, double, 2, false, true)
G2D(d2cs, double, 2, false, false)
G2D(i2cs, int, 2, false, false)
}
