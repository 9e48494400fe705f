#include "polynomial.cc"
using namespace ceres::internal;
using ceres::Vector;
namespace { Vector mk(const double* p, int n) { Vector v(n); for (int i = 0; i < n; ++i) v(i) = p[i]; return v; } }
extern "C" {
double w_eval(const double* p, int n, double x) { return EvaluatePolynomial(mk(p, n), x); }
int w_diff(const double* p, int n, double* out) { Vector d = DifferentiatePolynomial(mk(p, n)); for (int i = 0; i < d.size(); ++i) out[i] = d(i); return d.size(); }
int w_roots(const double* p, int n, double* re, double* im, int* sizes) {
  Vector r, i;
  bool ok = FindPolynomialRoots(mk(p, n), re ? &r : nullptr, im ? &i : nullptr);
  sizes[0] = r.size(); sizes[1] = i.size();
  for (int k = 0; k < r.size(); ++k) re[k] = r(k);
  for (int k = 0; k < i.size(); ++k) im[k] = i(k);
  return ok;
}
void w_min(const double* p, int n, double lo, double hi, double* x, double* v) { MinimizePolynomial(mk(p, n), lo, hi, x, v); }
}
