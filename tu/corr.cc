#include "corrector.cc"
using namespace ceres::internal;
extern "C" {
// Apply the correction the way ResidualBlock::Evaluate does: Jacobian first, then the residuals.
void w_correct(double s, const double* rho, int nr, int nc, double* r, double* J) {
  Corrector c(s, rho);
  c.CorrectJacobian(nr, nc, r, J);
  c.CorrectResiduals(nr, r);
}
void w_correct_res(double s, const double* rho, int nr, double* r) {
  Corrector c(s, rho);
  c.CorrectResiduals(nr, r);
}
}
