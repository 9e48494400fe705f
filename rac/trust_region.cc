// SOURCES: levenberg_marquardt_strategy.cc dogleg_strategy.cc trust_region_step_evaluator.cc trust_region_strategy.cc polynomial.cc array_utils.cc parallel_invoke.cc context_impl.cc thread_pool.cc parallel_utils.cc context.cc
#include <Eigen/Dense>
#include "ceres/levenberg_marquardt_strategy.h"
#include "ceres/dogleg_strategy.h"
#include "ceres/trust_region_step_evaluator.h"
#include "ceres/linear_solver.h"
#include "ceres/linear_least_squares_problems.h"
#include "ceres/sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_utils.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using namespace ceres::internal;
using rac::close; using rac::ok;
namespace ceres { namespace internal {
LinearOperator::~LinearOperator() = default;
SparseMatrix::~SparseMatrix() = default;
LinearSolver::~LinearSolver() = default;
void LinearOperator::RightMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { RightMultiplyAndAccumulate(x, y); }
void LinearOperator::LeftMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { LeftMultiplyAndAccumulate(x, y); }
void SparseMatrix::SquaredColumnNorm(double* x, ContextImpl*, int) const { SquaredColumnNorm(x); }
void SparseMatrix::ScaleColumns(const double* s, ContextImpl*, int) { ScaleColumns(s); }
bool DumpLinearLeastSquaresProblem(const std::string&, DumpFormatType, const SparseMatrix*, const double*, const double*, const double*, int) { return true; }
} }
using DM = Eigen::MatrixXd; using DV = Eigen::VectorXd;
struct Jac final : public SparseMatrix {
  DM m;
  void RightMultiplyAndAccumulate(const double* x, double* y) const override { Eigen::Map<DV>(y, m.rows()) += m * Eigen::Map<const DV>(x, m.cols()); }
  void LeftMultiplyAndAccumulate(const double* x, double* y) const override { Eigen::Map<DV>(y, m.cols()) += m.transpose() * Eigen::Map<const DV>(x, m.rows()); }
  void SquaredColumnNorm(double* x) const override { for (int j = 0; j < m.cols(); ++j) x[j] = m.col(j).squaredNorm(); }
  void ScaleColumns(const double*) override {}
  void SetZero() override {}
  void ToDenseMatrix(Matrix*) const override {}
  void ToTextFile(FILE*) const override {}
  double* mutable_values() override { return nullptr; }
  const double* values() const override { return nullptr; }
  int num_rows() const override { return int(m.rows()); }
  int num_cols() const override { return int(m.cols()); }
  int num_nonzeros() const override { return int(m.size()); }
};
struct Sol final : public LinearSolver {
  int calls = 0, fail = 0, mode = 0;
  DV D, b, x; double q = -1, r = -1;
  LinearSolver::Summary Solve(LinearOperator* A, const double* bb, const PerSolveOptions& o, double* xx) override {
    Jac* J = static_cast<Jac*>(A);
    int n = int(J->m.cols()), m = int(J->m.rows());
    ++calls;
    LinearSolver::Summary s;
    s.num_iterations = 10 + calls; s.residual_norm = 0.5 * calls;
    D = Eigen::Map<const DV>(o.D, n); b = Eigen::Map<const DV>(bb, m); q = o.q_tolerance; r = o.r_tolerance;
    if (fail > 0) { --fail; s.termination_type = LinearSolverTerminationType::FAILURE; return s; }
    if (mode == 1) { s.termination_type = LinearSolverTerminationType::FATAL_ERROR; return s; }
    if (mode == 2) { s.termination_type = LinearSolverTerminationType::SUCCESS; for (int i = 0; i < n; ++i) xx[i] = i == n - 1 ? std::numeric_limits<double>::quiet_NaN() : 1; return s; }
    DM H = J->m.transpose() * J->m; H += D.cwiseAbs2().asDiagonal();
    x = H.ldlt().solve(J->m.transpose() * b);
    Eigen::Map<DV>(xx, n) = x;
    s.termination_type = rac::coin(0.3) ? LinearSolverTerminationType::NO_CONVERGENCE : LinearSolverTerminationType::SUCCESS;
    last = s.termination_type;
    return s;
  }
  LinearSolverTerminationType last = LinearSolverTerminationType::SUCCESS;
};
static TrustRegionStrategy::Options opts(Sol* s) {
  TrustRegionStrategy::Options o;
  o.linear_solver = s;
  o.max_radius = std::pow(10.0, rac::integer(-1, 6)) * (1 + rac::unit());
  o.initial_radius = std::min(o.max_radius, std::pow(10.0, rac::integer(-3, 4)) * (1 + rac::unit()));
  o.min_lm_diagonal = rac::coin() ? 1e-6 : std::pow(10.0, rac::integer(-4, -1));
  o.max_lm_diagonal = rac::coin() ? 1e32 : 5.0;
  o.context = nullptr; o.num_threads = 1;
  rac::note("initial_radius", o.initial_radius); rac::note("max_radius", o.max_radius);
  rac::note("min_diag", o.min_lm_diagonal); rac::note("max_diag", o.max_lm_diagonal);
  return o;
}
static void problem(Jac& J, DV& f) {
  int n = rac::integer(1, 5), m = n + rac::integer(0, 3);
  J.m.resize(m, n); f.resize(m);
  for (int i = 0; i < m; ++i) { f[i] = rac::gauss(); for (int j = 0; j < n; ++j) J.m(i, j) = rac::gauss() * (j == 1 ? 5 : 1); }
  rac::note("m", m); rac::note("n", n); rac::note("J", J.m.data(), m * n); rac::note("f", f.data(), m);
}
static DV diag2(const Jac& J, const TrustRegionStrategy::Options& o) {
  DV d(J.m.cols());
  for (int j = 0; j < d.size(); ++j) d[j] = std::min(std::max(J.m.col(j).squaredNorm(), o.min_lm_diagonal), o.max_lm_diagonal);
  return d;
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("LevenbergMarquardtStrategy", 3000, [] {
    Sol sol; auto o = opts(&sol);
    LevenbergMarquardtStrategy s(o);
    Jac J; DV f; problem(J, f);
    int n = int(J.m.cols());
    DV d = diag2(J, o);
    double R = o.initial_radius, dec = 2; bool reuse = false;
    close("initial radius", s.Radius(), R, 0);
    for (int it = 0; it < 12; ++it) {
      if (!reuse) d = diag2(J, o);
      sol.mode = rac::coin(0.05) ? rac::integer(1, 2) : 0; sol.fail = rac::coin(0.05);
      bool failing = sol.fail; int mode = sol.mode;
      rac::note("mode", mode + 10 * failing);
      TrustRegionStrategy::PerSolveOptions p; p.eta = rac::unit();
      DV step = DV::Constant(n + 1, 77);
      auto sum = s.ComputeStep(p, &J, f.data(), step.data());
      reuse = true;
      for (int j = 0; j < n; ++j) close("D^2 = clamped diag(J^T J) / radius", sol.D[j] * sol.D[j], d[j] / R, 1e-9, 0);
      close("q tolerance is the forcing term", sol.q, p.eta, 0);
      ok("r tolerance disables the residual test", sol.r < 0);
      ok("right hand side", (sol.b - f).norm() == 0);
      ok("nothing past the step written", step[n] == 77);
      ok("iterations and norm reported", sum.num_iterations == 10 + sol.calls && sum.residual_norm == 0.5 * sol.calls);
      if (failing || mode == 2) ok("failures reported", sum.termination_type == LinearSolverTerminationType::FAILURE);
      else if (mode == 1) ok("fatal errors reported", sum.termination_type == LinearSolverTerminationType::FATAL_ERROR);
      else {
        ok("termination passed on", sum.termination_type == sol.last);
        for (int j = 0; j < n; ++j) close("step is minus the solution", step[j], -sol.x[j], 0);
      }
      int k = rac::integer(1, 3);
      double q = rac::coin() ? rac::unit() * 1.5 + 1e-9 : rac::positive();
      rac::note("action", k); rac::note("q", q);
      if (k == 1) { s.StepAccepted(q); R = std::min(o.max_radius, R / std::max(1.0 / 3.0, 1 - std::pow(2 * q - 1, 3))); dec = 2; reuse = false; do { problem(J, f); } while (int(J.m.cols()) != n);
        d = diag2(J, o);
      } else if (k == 2) { s.StepRejected(q); R /= dec; dec *= 2; }
      else { s.StepIsInvalid(); R /= dec; dec *= 2; }
      close("radius update", s.Radius(), R, 1e-12);
      ok("radius within (0, max_radius]", s.Radius() > 0 && s.Radius() <= o.max_radius);
    }
    double bad = -rac::nonneg();
    ok("accepting a non-positive quality is a programming error", rac::check_fires([&] { s.StepAccepted(bad); }));
  });
  for (int sub = 0; sub < 2; ++sub)
    rac::group(sub ? "DoglegStrategy subspace" : "DoglegStrategy traditional", sub ? 2500 : 4000, [sub] {
      Sol sol; auto o = opts(&sol);
      o.dogleg_type = sub ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG;
      if (sub) { o.min_lm_diagonal = 1e-6; o.max_lm_diagonal = 1e32; }
      DoglegStrategy s(o);
      Jac J; DV f; problem(J, f);
      double R = o.initial_radius, mu = 1e-8; bool reuse = false; double norm = 0;
      DV d, g, gn; double alpha = 0;
      for (int it = 0; it < 8; ++it) {
        int n = int(J.m.cols());
        int calls = sol.calls;
        DV step = DV::Constant(n + 1, 77);
        TrustRegionStrategy::PerSolveOptions p; p.eta = 0.5;
        sol.fail = rac::coin(0.15) ? rac::integer(1, 3) : 0; sol.mode = 0;
        if (mu * std::pow(10.0, sol.fail) > 0.05) sol.fail = 0;
        int fails = sol.fail;
        rac::note("fails", fails);
        auto sum = s.ComputeStep(p, &J, f.data(), step.data());
        if (reuse) { ok("no solve when the linearisation is reused", sol.calls == calls && sum.num_iterations == 0); ok("reuse succeeds", sum.termination_type == LinearSolverTerminationType::SUCCESS); }
        else {
          d = diag2(J, o).cwiseSqrt();
          g = (J.m.transpose() * f).cwiseQuotient(d);
          alpha = g.squaredNorm() / (J.m * g.cwiseQuotient(d)).squaredNorm();
          ok("one solve per regularisation", sol.calls == calls + 1 + fails);
          for (int k = 0; k < fails; ++k) mu *= 10;
          for (int j = 0; j < n; ++j) close("regularisation", sol.D[j] * sol.D[j], mu * d[j] * d[j], 1e-9, -1 + mu * d[j] * d[j]);
          close("full accuracy", sol.q, 0, 0);
          gn = -sol.x.cwiseProduct(d);
          ok("termination passed on", sum.termination_type == sol.last);
        }
        ok("nothing past the step written", step[n] == 77);
        DV w = step.head(n).cwiseProduct(d);
        DV as = d.cwiseInverse();
        auto model = [&](const DV& z) { DV Jz = J.m * z.cwiseProduct(as); return 0.5 * Jz.squaredNorm() + f.dot(Jz); };
        ok("inside the trust region", w.norm() <= R * (1 + 1e-6));
        if (gn.norm() <= R) ok("Gauss-Newton step taken when it fits", (w - gn).norm() <= 1e-9 * (1 + gn.norm()));
        else close("on the boundary otherwise", w.norm(), R, 1e-6, R - 1);
        // Cauchy decrease
        DV cp = -std::min(alpha, R / g.norm()) * g;
        double scale = 1e-6 * (std::fabs(model(cp)) + std::fabs(model(gn)));
        if (mu < 1e-6) ok("at least the Cauchy decrease", model(w) <= model(cp) + scale);
        if (!sub && gn.norm() > R) {
          DV a = -alpha * g;
          if (a.norm() >= R) ok("steepest descent to the boundary", (w + R / g.norm() * g).norm() <= 1e-7 * R);
          else {
            DV ba = gn - a; double t = ba.dot(w - a) / ba.squaredNorm();
            ok("on the second dogleg segment", t >= -1e-7 && t <= 1 + 1e-7 && (w - a - t * ba).norm() <= 1e-6 * (R + ba.norm()));
          }
        }
        if (sub && gn.norm() > R && n > 1) {
          DV u1 = g.normalized(), u2 = gn - u1 * u1.dot(gn);
          if (u2.norm() > 1e-3 * gn.norm()) {
            u2.normalize();
            double best = 1e300;
            for (int k = 0; k < 720; ++k) { double t = k * 6.283185307179586 / 720; best = std::min(best, model(R * (std::cos(t) * u1 + std::sin(t) * u2))); }
            DV rest = w - u1 * u1.dot(w) - u2 * u2.dot(w);
            ok("step lies in the subspace", rest.norm() <= 1e-6 * R);
            ok("minimises the model over the boundary of the subspace", model(w) <= best + 1e-4 * std::fabs(best));
          }
        }
        norm = w.norm();
        int k = rac::integer(1, 3);
        double q = rac::coin() ? rac::unit() * 1.2 + 1e-9 : rac::positive();
        rac::note("action", k); rac::note("q", q);
        if (k == 1) {
          s.StepAccepted(q);
          double R0 = R;
          if (q < 0.25) R0 *= 0.5;
          if (q > 0.75) R0 = std::min(o.max_radius, std::max(R, 3 * norm));
          close("radius after acceptance", s.Radius(), R0, 1e-6, R0);
          R = s.Radius(); mu = std::max(1e-8, mu / 5); reuse = false;
          int n0 = n; do { problem(J, f); } while (int(J.m.cols()) != n0);
        } else if (k == 2) { s.StepRejected(q); close("radius halved", s.Radius(), R / 2, 1e-12, R - 1); R = s.Radius(); reuse = true; }
        else { s.StepIsInvalid(); close("radius kept", s.Radius(), R, 0); mu *= 10; reuse = false; if (mu > 0.01) return; }
        ok("radius within (0, max_radius]", s.Radius() > 0 && s.Radius() <= o.max_radius);
      }
    });
  rac::group("DoglegStrategy gives up", 200, [] {
    Sol sol; auto o = opts(&sol);
    o.dogleg_type = rac::coin() ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG;
    DoglegStrategy s(o);
    Jac J; DV f; problem(J, f);
    DV step(J.m.cols());
    sol.fail = 100;
    TrustRegionStrategy::PerSolveOptions p;
    auto sum = s.ComputeStep(p, &J, f.data(), step.data());
    ok("failure after the largest regularisation", sum.termination_type == LinearSolverTerminationType::FAILURE && sol.calls == 8);
  });
  rac::group("TrustRegionStepEvaluator", 4000, [] {
    int M = rac::coin(0.3) ? 0 : rac::integer(1, 6);
    double x = std::fabs(rac::gauss()) * 10;
    rac::note("window", M); rac::note("initial", x);
    TrustRegionStepEvaluator e(x, M);
    // history of accepted costs since the best one
    std::vector<double> cost{x}, mc{0};
    double best = x, ref = x, cand = x, cur = x, accr = 0, accc = 0; int l = 0;
    for (int k = 0; k < 25; ++k) {
      double t = rac::coin(0.05) ? std::numeric_limits<double>::max() : cur + rac::gauss() * 2, m = rac::positive();
      rac::note("cost", t); rac::note("model", m);
      double q = e.StepQuality(t, m);
      if (t >= std::numeric_limits<double>::max()) { ok("unevaluable cost is the worst quality", q == std::numeric_limits<double>::lowest()); continue; }
      close("quality", q, std::max((cur - t) / m, (ref - t) / (accr + m)), 1e-9);
      if (!(q > 1e-3)) continue;
      if (M == 0) ok("monotonic steps decrease the cost", t < cur);
      else ok("nonmonotonic steps stay below the reference", t < std::max(cur, ref));
      e.StepAccepted(t, m);
      cur = t; accr += m; accc += m;
      if (t < best) { best = t; l = 0; cand = t; accc = 0; }
      else { ++l; if (t > cand) { cand = t; accc = 0; } }
      if (l == M) { ref = cand; accr = accc; }
    }
  });
  return rac::finish();
}
