// SOURCES: corrector.cc
#include "ceres/corrector.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres::internal;
using rac::close; using rac::ok;
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Corrector", 6000, [] {
    int nr = rac::integer(1, 9), nc = rac::integer(1, 7);
    rac::note("rows", nr); rac::note("cols", nc);
    std::vector<double> r(nr), J(nr * nc);
    rac::fill(r, "r"); rac::fill(J, "J");
    if (rac::coin(0.1)) std::fill(r.begin(), r.end(), 0.0);
    double s = 0; for (double x : r) s += x * x;
    double rho[3] = {rac::tame(), rac::coin(0.1) ? 1.0 : rac::unit() * 3 + 1e-3, 0};
    int k = rac::integer(0, 3);
    rho[2] = k == 0 ? 0 : k == 1 ? -rac::unit() : rac::unit() * std::pow(10.0, rac::integer(-3, 1));
    rac::note("rho", rho, 3);
    std::vector<double> R = r, K = J;
    Corrector cc(s, rho);
    std::vector<double> Rpad = R; Rpad.push_back(7); K.push_back(9);
    cc.CorrectJacobian(nr, nc, Rpad.data(), K.data());
    for (int i = 0; i < nr; ++i) ok("CorrectJacobian leaves the residuals alone", Rpad[i] == r[i]);
    cc.CorrectResiduals(nr, Rpad.data());
    ok("nothing outside the outputs is written", Rpad[nr] == 7 && K[nr * nc] == 9);
    bool curv = rho[2] > 0 && s > 0;
    double D = curv ? 1 + 2 * s * rho[2] / rho[1] : 1;
    for (int i = 0; i < nr; ++i) close("residual scaled by sqrt(rho1)/(1-alpha)", Rpad[i], std::sqrt(rho[1] / D) * r[i], 1e-9);
    std::vector<double> g(nc, 0.0);
    for (int j = 0; j < nc; ++j) for (int i = 0; i < nr; ++i) g[j] += J[i * nc + j] * r[i];
    for (int j = 0; j < nc; ++j) {
      double gj = 0, sc = 0;
      for (int i = 0; i < nr; ++i) { gj += K[i * nc + j] * Rpad[i]; sc += std::fabs(J[i * nc + j] * r[i]) * rho[1]; }
      close("gradient is that of the robustified cost", gj, rho[1] * g[j], 1e-8, sc * D);
      for (int l = j; l < nc; ++l) {
        double h = 0, h0 = 0, a = 0;
        for (int i = 0; i < nr; ++i) { h += K[i * nc + j] * K[i * nc + l]; h0 += J[i * nc + j] * J[i * nc + l]; a += std::fabs(J[i * nc + j] * J[i * nc + l]); }
        close("Hessian is rho1 J^T J + 2 rho2 J^T r r^T J", h, rho[1] * h0 + (curv ? 2 * rho[2] * g[j] * g[l] : 0), 1e-8, a * rho[1] * D);
      }
    }
  });
  rac::group("degenerate slopes", 500, [] {
    double rho[3] = {1, 0, 0}; int k = rac::integer(0, 2);
    rho[2] = k == 0 ? 0 : k == 1 ? -rac::positive() : rac::positive();
    rac::note("rho", rho, 3);
    double r[2] = {3, 4}, J[2] = {1, 2};
    bool fired = rac::check_fires([&] { Corrector cc(25.0, rho); cc.CorrectJacobian(2, 1, r, J); cc.CorrectResiduals(2, r); });
    ok("rejected exactly when curvature is positive and the slope is not", fired == (rho[2] > 0));
    if (!fired) ok("zero slope removes the residual", r[0] == 0 && r[1] == 0 && J[0] == 0 && J[1] == 0);
  });
  return rac::finish();
}
