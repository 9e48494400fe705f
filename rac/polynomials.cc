// SOURCES: polynomial.cc function_sample.cc
#include <complex>
#include <algorithm>
#include "ceres/polynomial.h"
#include "ceres/function_sample.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres::internal;
using ceres::Vector;
using rac::close; using rac::ok;
typedef std::complex<double> C;
static Vector poly(const char* nm, int n, int lead = 0) {
  Vector p(n + lead);
  for (int i = 0; i < n + lead; ++i) p(i) = i < lead ? 0.0 : rac::coin(0.3) ? double(rac::integer(-4, 4)) : rac::tame();
  rac::note(nm, p.data(), int(p.size()));
  return p;
}
template <class T> T ev(const Vector& p, T x) { T r(0); for (int i = 0; i < p.size(); ++i) r = r * x + p(i); return r; }
static double mag(const Vector& p, double x) { double r = 0; for (int i = 0; i < p.size(); ++i) r += std::fabs(p(i)) * std::pow(std::fabs(x), double(p.size() - 1 - i)); return r; }
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Evaluate and Differentiate", 2000, [] {
    Vector p = poly("p", rac::integer(1, 8)); double x = rac::tame("x");
    close("EvaluatePolynomial is the sum of powers", EvaluatePolynomial(p, x), ev(p, x), 1e-10, mag(p, x));
    Vector d = DifferentiatePolynomial(p);
    int n = int(p.size());
    ok("derivative degree", d.size() == (n == 1 ? 1 : n - 1));
    if (n == 1) ok("derivative of a constant is zero", d(0) == 0);
    else for (int i = 0; i < n - 1; ++i) close("derivative coefficient", d(i), (n - 1 - i) * p(i), 1e-14);
  });
  rac::group("FindPolynomialRoots", 5000, [] {
    int deg = rac::integer(0, 6), lead = rac::coin(0.25) ? rac::integer(1, 3) : 0;
    Vector p(deg + 1 + lead); p.setZero();
    if (rac::coin() && deg > 0) {   // from known, separated roots
      std::vector<double> q(1, rac::coin() ? 1.0 : -2.5);
      int i = 0;
      while (i < deg) {
        if (deg - i >= 2 && rac::coin()) { double a = i + 0.3 * rac::unit(), b = 0.3 + rac::unit();
          std::vector<double> w(q.size() + 2, 0.0); for (size_t k = 0; k < q.size(); ++k) { w[k] += q[k]; w[k + 1] -= 2 * a * q[k]; w[k + 2] += (a * a + b * b) * q[k]; } q = w; i += 2;
        } else { double a = (rac::coin() ? -1 : 1) * (i + 0.3 * rac::unit());
          std::vector<double> w(q.size() + 1, 0.0); for (size_t k = 0; k < q.size(); ++k) { w[k] += q[k]; w[k + 1] -= a * q[k]; } q = w; i += 1; }
      }
      for (int k = 0; k <= deg; ++k) p(lead + k) = q[k];
    } else {
      for (int k = 0; k <= deg; ++k) p(lead + k) = rac::coin(0.3) ? double(rac::integer(-3, 3)) : rac::tame();
    }
    rac::note("p", p.data(), int(p.size()));
    int z = 0; while (z < p.size() - 1 && p(z) == 0) ++z;
    int d = int(p.size()) - 1 - z;
    if (d >= 3 && std::fabs(p(z)) < 1e-3) return;
    Vector re, im, re2, im2;
    ok("roots found", FindPolynomialRoots(p, &re, &im));
    ok("imaginary part may be omitted", FindPolynomialRoots(p, &re2, nullptr) && re2.size() == re.size() && (re2.size() == 0 || (re2 - re).norm() == 0));
    ok("real part may be omitted", FindPolynomialRoots(p, nullptr, &im2) && im2.size() == im.size());
    ok("one root per degree", re.size() == d && im.size() == d);
    if (re.size() != d || im.size() != d) return;
    C prod(1), sum(0);
    for (int i = 0; i < d; ++i) {
      C r(re(i), im(i)); prod *= r; sum += r;
      ok("roots are finite", std::isfinite(re(i)) && std::isfinite(im(i)));
      double m = mag(p, std::abs(r));
      if (d < 3 ? std::abs(r) < 1e6 : std::abs(r) < 1e3) close("root is a root", std::abs(ev(p, r)), 0, d < 3 ? 1e-9 : 1e-6, m);
      if (d > 2) { bool conj = im(i) == 0; for (int k = 0; k < d; ++k) conj |= re(k) == re(i) && im(k) == -im(i); ok("complex roots come in conjugate pairs", conj); }
    }
    if (d >= 1) {
      double s = 1; for (int i = 0; i < d; ++i) s *= 1 + std::hypot(re(i), im(i));
      close("Vieta: product of the roots", prod.real(), (d % 2 ? -1 : 1) * p(p.size() - 1) / p(z), 1e-5, s);
      close("Vieta: sum of the roots", sum.real(), -p(z + 1) / p(z), 1e-5, s);
    }
  });
  rac::group("double root at zero", 200, [] {
    Vector p(3), r, i; p << rac::tame("a") + 3, 0, 0;
    ok("found", FindPolynomialRoots(p, &r, &i));
    ok("both roots are zero", r.size() == 2 && r(0) == 0 && r(1) == 0 && i(0) == 0 && i(1) == 0);
  });
  rac::group("empty polynomial", 1, [] { Vector p(0), r; ok("size 0 rejected", !FindPolynomialRoots(p, &r, nullptr)); });
  rac::group("MinimizePolynomial", 3000, [] {
    Vector p = poly("p", rac::integer(1, 6), rac::coin(0.2) ? rac::integer(1, 2) : 0);
    double lo = rac::tame("lo"), hi = lo + (rac::coin(0.1) ? 0 : 3 * rac::unit()); rac::note("hi", hi);
    double x, val; MinimizePolynomial(p, lo, hi, &x, &val);
    ok("minimiser in the interval", x >= lo && x <= hi);
    double m = std::max(mag(p, lo), mag(p, hi));
    close("value belongs to the minimiser", val, ev(p, x), 1e-9, m);
    for (int i = 0; i <= 200; ++i) { double t = i == 200 ? hi : lo + (hi - lo) * i / 200; ok("no point of the interval is lower", ev(p, t) >= val - 1e-7 * (1 + m)); }
  });
  rac::group("interpolation", 3000, [] {
    int n = rac::integer(1, 3); std::vector<FunctionSample> s(n);
    int k = 0;
    double base = rac::tame();
    for (int i = 0; i < n; ++i) {
      s[i].x = base + i * (0.4 + 0.5 * rac::unit()); s[i].value = rac::tame(); s[i].gradient = rac::tame();
      s[i].value_is_valid = i == 0 || rac::coin(0.8); s[i].gradient_is_valid = s[i].value_is_valid && rac::coin();
      double q[5] = {s[i].x, s[i].value, double(s[i].value_is_valid), s[i].gradient, double(s[i].gradient_is_valid)}; rac::note("sample", q, 5);
      k += s[i].value_is_valid + s[i].gradient_is_valid;
    }
    std::vector<FunctionSample> o = s;
    if (rac::coin()) std::reverse(s.begin(), s.end());
    Vector p = FindInterpolatingPolynomial(s);
    ok("degree is the number of constraints minus one", p.size() == k);
    if (p.size() != k) return;
    Vector d = DifferentiatePolynomial(p);
    for (auto& q : s) {
      double m = mag(p, q.x), md = mag(d, q.x);
      if (q.value_is_valid) close("interpolates the value", ev(p, q.x), q.value, 1e-8, m);
      if (q.gradient_is_valid) close("interpolates the gradient", ev(d, q.x), q.gradient, 1e-8, md);
    }
    double lo = base + rac::tame(), hi = lo + 2 * rac::unit(); rac::note("lo", lo); rac::note("hi", hi);
    double x, val; MinimizeInterpolatingPolynomial(s, lo, hi, &x, &val);
    ok("minimiser in the interval", x >= lo && x <= hi);
    double m = std::max(mag(p, lo), mag(p, hi));
    close("value belongs to the minimiser", val, ev(p, x), 1e-9, m);
    for (int i = 0; i <= 100; ++i) { double t = i == 100 ? hi : lo + (hi - lo) * i / 100; ok("no point of the interval is lower", ev(p, t) >= val - 1e-7 * (1 + m)); }
  });
  return rac::finish();
}
