// SOURCES: loss_function.cc
#include "ceres/loss_function.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::ok;

static void derivs(const LossFunction& l, double s, double d1, double d2, bool robust) {
  double r[3];
  l.Evaluate(s, r);
  close("rho1 is d rho0 / ds", r[1], d1, 1e-9);
  close("rho2 is d rho1 / ds", r[2], d2, 1e-9);
  ok("rho1 nonnegative", r[1] >= 0);
  if (robust) ok("rho2 not positive", r[2] <= 0);
  double z[3];
  l.Evaluate(0.0, z);
  close("rho(0) = 0", z[0], 0, 1e-9, 0);
}
static double S(double a) {  // s around the scale
  double s = rac::coin() ? rac::nonneg() : a * a * (0.01 + 4 * rac::unit());
  if (s > 1e5) s = std::fmod(s, 1e5);
  rac::note("s", s);
  return s;
}
struct Poly : LossFunction {
  double k;
  explicit Poly(double k) : k(k) {}
  void Evaluate(double s, double r[3]) const override { r[0] = s + k * s * s; r[1] = 1 + 2 * k * s; r[2] = 2 * k; }
};
static double scale() { double a = 0.05 + 5 * rac::unit(); if (rac::coin(0.2)) a = 1; rac::note("a", a); return a; }

int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Trivial", 200, [] {
    double s = S(1), r[3]; TrivialLoss l; l.Evaluate(s, r);
    ok("identity", r[0] == s && r[1] == 1 && r[2] == 0);
  });
  rac::group("Huber", 2000, [] {
    double a = scale(), s = S(a), r[3]; HuberLoss l(a); l.Evaluate(s, r);
    close("rho0 equals the documented loss", r[0], s > a * a ? 2 * a * std::sqrt(s) - a * a : s, 1e-10);
    derivs(l, s, s > a * a ? a / std::sqrt(s) : 1, s > a * a ? -a / (2 * s * std::sqrt(s)) : 0, true);
    double b = a * a, r1[3], r2[3];
    l.Evaluate(b, r1); l.Evaluate(b * (1 + 1e-9), r2);
    close("value and slope continuous at the branch point", r2[0], r1[0], 1e-6);
    close("value and slope continuous at the branch point", r2[1], r1[1], 1e-6);
  });
  rac::group("SoftLOne", 2000, [] {
    double a = scale(), s = S(a), r[3]; SoftLOneLoss l(a); l.Evaluate(s, r);
    close("rho0 equals the documented loss", r[0], 2 * a * a * (std::sqrt(1 + s / (a * a)) - 1), 1e-10);
    double q = 1 + s / (a * a); derivs(l, s, 1 / std::sqrt(q), -1 / (2 * a * a * q * std::sqrt(q)), true);
  });
  rac::group("Cauchy", 2000, [] {
    double a = scale(), s = S(a), r[3]; CauchyLoss l(a); l.Evaluate(s, r);
    close("rho0 equals the documented loss", r[0], a * a * std::log(1 + s / (a * a)), 1e-10);
    double q = 1 + s / (a * a); derivs(l, s, 1 / q, -1 / (a * a * q * q), true);
  });
  rac::group("Arctan", 2000, [] {
    double a = scale(), s = S(a), r[3]; ArctanLoss l(a); l.Evaluate(s, r);
    close("rho0 equals the documented loss", r[0], a * std::atan2(s, a), 1e-10);
    double q = 1 + s * s / (a * a); derivs(l, s, 1 / q, -2 * s / (a * a * q * q), true);
  });
  rac::group("Tolerant", 2000, [] {
    double a = rac::coin(0.1) ? 0 : 4 * rac::unit(), b = 0.05 + 2 * rac::unit(), r[3];
    rac::note("a", a); rac::note("b", b);
    double s = S(1 + a); if (rac::coin(0.3)) { s = a + b * (30 + 15 * rac::unit()); rac::note("s'", s); }
    TolerantLoss l(a, b); l.Evaluate(s, r);
    double x = (s - a) / b, c0 = b * std::log(1 + std::exp(-a / b));
    close("rho0 equals the documented loss", r[0], x > 36.7 ? s - a - c0 : b * std::log(1 + std::exp(x)) - c0, 1e-9);
    double e = std::exp(std::min(x, 700.0)); derivs(l, s, x > 36.7 ? 1 : e / (1 + e), x > 36.7 ? 0 : e / (b * (1 + e) * (1 + e)), false);
    ok("rho1 within [0,1]", r[1] >= 0 && r[1] <= 1);
    ok("constructor rejects a < 0", rac::check_fires([&] { TolerantLoss t(-a - 0.1, b); }));
    ok("constructor rejects b <= 0", rac::check_fires([&] { TolerantLoss t(a, -b); }));
    ok("constructor rejects b <= 0", rac::check_fires([&] { TolerantLoss t(a, 0.0); }));
  });
  rac::group("Tukey", 2000, [] {
    double a = scale(), s = S(a), r[3]; TukeyLoss l(a); l.Evaluate(s, r);
    double t = 1 - s / (a * a);
    close("rho0 equals the documented loss", r[0], s <= a * a ? a * a / 3 * (1 - t * t * t) : a * a / 3, 1e-10);
    if (s > a * a * (1 + 1e-9)) ok("outliers have no influence", r[1] == 0 && r[2] == 0);
    derivs(l, s, s <= a * a ? t * t : 0, s <= a * a ? -2 / (a * a) * t : 0, true);
  });
  rac::group("Composed", 1000, [] {
    Poly f(rac::tame("f")), g(rac::tame("g")); double s = std::fabs(rac::tame("s")), r[3], rg[3], rf[3];
    ComposedLoss l(&f, DO_NOT_TAKE_OWNERSHIP, &g, DO_NOT_TAKE_OWNERSHIP); l.Evaluate(s, r);
    g.Evaluate(s, rg); f.Evaluate(rg[0], rf);
    close("rho0 = f(g(s))", r[0], rf[0]); close("rho1 = f'(g) g'", r[1], rf[1] * rg[1]);
    close("rho2 = f''(g) g'^2 + f'(g) g''", r[2], rf[2] * rg[1] * rg[1] + rf[1] * rg[2]);
  });
  rac::group("ScaledAndWrapper", 1000, [] {
    Poly f(rac::tame("f")), g(rac::tame("g")); double a = rac::tame("a"), s = std::fabs(rac::tame("s")), r[3], rf[3], rg[3];
    f.Evaluate(s, rf); g.Evaluate(s, rg);
    ScaledLoss l(&f, a, DO_NOT_TAKE_OWNERSHIP); l.Evaluate(s, r);
    for (int k = 0; k < 3; ++k) close("scaled", r[k], a * rf[k], 1e-12);
    ScaledLoss n(nullptr, a, DO_NOT_TAKE_OWNERSHIP); n.Evaluate(s, r);
    close("scaled null", r[0], a * s, 1e-12); close("scaled null", r[1], a, 1e-12); ok("scaled null", r[2] == 0);
    LossFunctionWrapper w(&f, DO_NOT_TAKE_OWNERSHIP); w.Evaluate(s, r);
    for (int k = 0; k < 3; ++k) close("wrapper forwards", r[k], rf[k], 0);
    w.Reset(&g, DO_NOT_TAKE_OWNERSHIP); w.Evaluate(s, r);
    for (int k = 0; k < 3; ++k) close("wrapper forwards after Reset", r[k], rg[k], 0);
    LossFunctionWrapper z(nullptr, DO_NOT_TAKE_OWNERSHIP); z.Evaluate(s, r);
    ok("wrapper null is identity", r[0] == s && r[1] == 1 && r[2] == 0);
  });
  return rac::finish();
}
