#include "levenberg_marquardt_strategy.cc"
#include "dogleg_strategy.cc"
#include "trust_region_step_evaluator.cc"
#include "trust_region_strategy.cc"
#include "array_utils.cc"
#include "ceres/linear_solver.h"
#include "ceres/sparse_matrix.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
void u_sqnorm(double* x);
void u_rm(const double* x, double* y);
void u_lm(const double* x, double* y);
int u_solve(const double* D, double q, double r, const double* b, double* x, double* norm, int* iters);
}
namespace ceres { namespace internal {
LinearOperator::~LinearOperator() = default;
SparseMatrix::~SparseMatrix() = default;
LinearSolver::~LinearSolver() = default;
void LinearOperator::RightMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { RightMultiplyAndAccumulate(x, y); }
void LinearOperator::LeftMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { LeftMultiplyAndAccumulate(x, y); }
void SparseMatrix::SquaredColumnNorm(double* x, ContextImpl*, int) const { SquaredColumnNorm(x); }
void SparseMatrix::ScaleColumns(const double* s, ContextImpl*, int) { ScaleColumns(s); }
} }
namespace {
// An arbitrary Jacobian and an arbitrary linear solver: undefined functions with contracts.
struct Jac final : public SparseMatrix {
  int r, c;
  Jac(int r, int c) : r(r), c(c) {}
  void RightMultiplyAndAccumulate(const double* x, double* y) const override { u_rm(x, y); }
  void LeftMultiplyAndAccumulate(const double* x, double* y) const override { u_lm(x, y); }
  void SquaredColumnNorm(double* x) const override { u_sqnorm(x); }
  void ScaleColumns(const double*) override {}
  void SetZero() override {}
  void ToDenseMatrix(Matrix*) const override {}
  void ToTextFile(FILE*) const override {}
  double* mutable_values() override { return nullptr; }
  const double* values() const override { return nullptr; }
  int num_rows() const override { return r; }
  int num_cols() const override { return c; }
  int num_nonzeros() const override { return r * c; }
};
struct Sol final : public LinearSolver {
  LinearSolver::Summary Solve(LinearOperator*, const double* b, const PerSolveOptions& o, double* x) override {
    LinearSolver::Summary s;
    s.termination_type = static_cast<LinearSolverTerminationType>(u_solve(o.D, o.q_tolerance, o.r_tolerance, b, x, &s.residual_norm, &s.num_iterations));
    return s;
  }
};
TrustRegionStrategy::Options opt(LinearSolver* s, const double* o, DoglegType t) {
  TrustRegionStrategy::Options p;
  p.linear_solver = s; p.initial_radius = o[0]; p.max_radius = o[1]; p.min_lm_diagonal = o[2]; p.max_lm_diagonal = o[3];
  p.dogleg_type = t; p.context = nullptr; p.num_threads = 1;
  return p;
}
template <class S> void act(S& s, int k, double q) { if (k == 1) s.StepAccepted(q); else if (k == 2) s.StepRejected(q); else if (k == 3) s.StepIsInvalid(); }
inline TrustRegionStrategy& up(TrustRegionStrategy& s) { return s; }
template <class S> void drive(S& s, int n, double eta, const double* res, const int* kinds, const double* q, int steps, double* step, double* norm, int* status, double* radius) {
  Jac jac(2, n);
  TrustRegionStrategy::PerSolveOptions po;
  po.eta = eta;
  for (int i = 0; i < steps; ++i) {
    TrustRegionStrategy::Summary m = s.ComputeStep(po, &jac, res, step + i * n);
    norm[i] = m.residual_norm; status[2 * i] = int(m.termination_type); status[2 * i + 1] = m.num_iterations;
    act(s, kinds[i], q[i]);
    radius[i] = s.Radius();
  }
}
}
extern "C" {
void w_lm(const double* o, int n, double eta, const double* res, const int* kinds, const double* q, int steps, double* step, double* norm, int* status, double* radius) {
  Sol sol; LevenbergMarquardtStrategy s(opt(&sol, o, TRADITIONAL_DOGLEG));
  drive(s, n, eta, res, kinds, q, steps, step, norm, status, radius);
}
void w_dog(const double* o, int n, double eta, const double* res, const int* kinds, const double* q, int steps, double* step, double* norm, int* status, double* radius) {
  Sol sol; DoglegStrategy s(opt(&sol, o, TRADITIONAL_DOGLEG));
  drive(s, n, eta, res, kinds, q, steps, step, norm, status, radius);
}
// One radius update from an arbitrary state.
void w_lm_radius(const double* o, double radius, double factor, int kind, double q, double* out) {
  Sol sol; LevenbergMarquardtStrategy s(opt(&sol, o, TRADITIONAL_DOGLEG));
  s.radius_ = radius; s.decrease_factor_ = factor;
  act(s, kind, q);
  out[0] = s.Radius(); out[1] = s.decrease_factor_;
}
void w_dog_radius(const double* o, double radius, double mu, double norm, int kind, double q, double* out) {
  Sol sol; DoglegStrategy s(opt(&sol, o, TRADITIONAL_DOGLEG));
  s.radius_ = radius; s.mu_ = mu; s.dogleg_step_norm_ = norm;
  act(s, kind, q);
  out[0] = s.Radius(); out[1] = s.mu_;
}
// The dogleg geometry for arbitrary gradient, Gauss-Newton step and radius.
void w_dog_step(const double* o, const double* g, const double* gn, const double* dg, double alpha, double radius, int n, double* step, double* norm) {
  Sol sol; DoglegStrategy s(opt(&sol, o, TRADITIONAL_DOGLEG));
  s.gradient_.resize(n); s.gauss_newton_step_.resize(n); s.diagonal_.resize(n);
  for (int i = 0; i < n; ++i) { s.gradient_[i] = g[i]; s.gauss_newton_step_[i] = gn[i]; s.diagonal_[i] = dg[i]; }
  s.alpha_ = alpha; s.radius_ = radius;
  s.ComputeTraditionalDoglegStep(step);
  *norm = s.dogleg_step_norm_;
}
void w_dog_poly(const double* o, const double* B, const double* g, double radius, double* p) {
  Sol sol; DoglegStrategy s(opt(&sol, o, SUBSPACE_DOGLEG));
  s.subspace_B_ << B[0], B[1], B[2], B[3]; s.subspace_g_ << g[0], g[1]; s.radius_ = radius;
  ceres::Vector v = s.MakePolynomialForBoundaryConstrainedProblem();
  for (int i = 0; i < 5; ++i) p[i] = v(i);
}
double w_dog_model(const double* o, const double* B, const double* g, const double* x) {
  Sol sol; DoglegStrategy s(opt(&sol, o, SUBSPACE_DOGLEG));
  s.subspace_B_ << B[0], B[1], B[2], B[3]; s.subspace_g_ << g[0], g[1];
  DoglegStrategy::Vector2d v(x[0], x[1]);
  return s.EvaluateSubspaceModel(v);
}
// Step evaluator: st = minimum, current, reference, candidate, acc reference, acc candidate
void w_ev_init(double cost, int m, double* st, int* l) {
  TrustRegionStepEvaluator e(cost, m);
  st[0] = e.minimum_cost_; st[1] = e.current_cost_; st[2] = e.reference_cost_; st[3] = e.candidate_cost_;
  st[4] = e.accumulated_reference_model_cost_change_; st[5] = e.accumulated_candidate_model_cost_change_; *l = e.num_consecutive_nonmonotonic_steps_;
}
void w_ev_step(int m, double* st, int* l, double cost, double change) {
  TrustRegionStepEvaluator e(0.0, m);
  e.minimum_cost_ = st[0]; e.current_cost_ = st[1]; e.reference_cost_ = st[2]; e.candidate_cost_ = st[3];
  e.accumulated_reference_model_cost_change_ = st[4]; e.accumulated_candidate_model_cost_change_ = st[5]; e.num_consecutive_nonmonotonic_steps_ = *l;
  e.StepAccepted(cost, change);
  st[0] = e.minimum_cost_; st[1] = e.current_cost_; st[2] = e.reference_cost_; st[3] = e.candidate_cost_;
  st[4] = e.accumulated_reference_model_cost_change_; st[5] = e.accumulated_candidate_model_cost_change_; *l = e.num_consecutive_nonmonotonic_steps_;
}
double w_ev_quality(int m, const double* st, double cost, double change) {
  TrustRegionStepEvaluator e(0.0, m);
  e.minimum_cost_ = st[0]; e.current_cost_ = st[1]; e.reference_cost_ = st[2]; e.candidate_cost_ = st[3];
  e.accumulated_reference_model_cost_change_ = st[4]; e.accumulated_candidate_model_cost_change_ = st[5];
  return e.StepQuality(cost, change);
}
// Where the members read by ComputeTraditionalDoglegStep live.
void w_dog_layout(long* o) {
  o[0] = offsetof(DoglegStrategy, gradient_); o[1] = offsetof(DoglegStrategy, gauss_newton_step_); o[2] = offsetof(DoglegStrategy, diagonal_);
  o[3] = offsetof(DoglegStrategy, alpha_); o[4] = offsetof(DoglegStrategy, radius_); o[5] = offsetof(DoglegStrategy, dogleg_step_norm_);
}
}
