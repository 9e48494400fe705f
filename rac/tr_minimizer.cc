// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/minimizer.h"
#include "ceres/trust_region_minimizer.h"
#include "ceres/trust_region_strategy.h"
#include "nls.h"
RAC_MAIN_SUPPORT
using namespace nls;
using rac::close; using rac::ok;
static LinearSolverType LS[] = {DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR};
static void scatter(Prob& P, const std::vector<std::vector<double>>& v) { for (size_t j = 0; j < v.size(); ++j) std::copy(v[j].begin(), v[j].end(), P.b[j].x.begin()); }
static std::vector<std::vector<double>> values(const Prob& P) { std::vector<std::vector<double>> v; for (auto& b : P.b) v.push_back(b.x); return v; }
static void show(const Solver::Summary& s) { if (!getenv("SHOW")) return; puts(s.FullReport().c_str()); for (auto& q : s.iterations) printf("%d %d %d %.15g %g %g %g\n", q.iteration, q.step_is_valid, q.step_is_successful, q.cost, q.step_norm, q.trust_region_radius, q.gradient_max_norm); }
static Solver::Options options() {
  Solver::Options o;
  o.logging_type = SILENT;
  o.max_num_iterations = rac::integer(0, 25);
  if (rac::coin(0.3)) o.trust_region_strategy_type = DOGLEG;
  if (rac::coin(0.5)) o.dogleg_type = SUBSPACE_DOGLEG;
  o.linear_solver_type = LS[rac::integer(0, o.trust_region_strategy_type == DOGLEG ? 4 : 6)];
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.use_nonmonotonic_steps = rac::coin(0.3);
  o.max_consecutive_nonmonotonic_steps = rac::integer(1, 5);
  o.jacobi_scaling = rac::coin(0.7);
  o.initial_trust_region_radius = std::pow(10.0, rac::integer(-2, 5));
  o.num_threads = rac::coin(0.2) ? 2 : 1;
  o.function_tolerance = rac::coin() ? 1e-6 : 0;
  o.parameter_tolerance = rac::coin() ? 1e-8 : 0;
  o.gradient_tolerance = std::pow(10.0, -rac::integer(4, 12));
  rac::note("iterations", o.max_num_iterations); rac::note("strategy", o.trust_region_strategy_type); rac::note("solver", o.linear_solver_type);
  rac::note("nonmonotonic", o.use_nonmonotonic_steps); rac::note("threads", o.num_threads);
  return o;
}
static Spec spec(bool bounds = false) {
  Spec s;
  s.blocks = rac::integer(1, 5); s.terms = rac::integer(1, 8); s.constant = 0.2; s.manifold = bounds ? 0 : 0.3; s.eps = rac::coin() ? 0.3 : 0; s.loss = 0.3;
  rac::note("blocks", s.blocks); rac::note("terms", s.terms); rac::note("eps", s.eps);
  return s;
}
static bool anything(const Prob& P) { for (auto& m : P.t) for (int j : m.blocks) if (!P.b[j].constant && P.b[j].tangent() > 0) return true; return false; }
static bool fixed_term(const Prob& P, const Term& m) { for (int j : m.blocks) if (!P.b[j].constant && P.b[j].tangent() > 0) return false; return true; }
static double gradient_norm(const Prob& P, double* two) {
  Eval e = reference(P, all(P.b.size()), all(P.t.size()), true);
  double mx = 0, sq = 0; int o = 0;
  for (auto& b : P.b) {
    std::vector<double> d(b.tangent() + 1, 0), y(b.size());
    bool zero = true;
    for (int i = 0; i < b.tangent(); ++i) { d[i] = -e.g(o + i); zero &= d[i] == 0; }
    o += b.tangent();
    if (b.constant || zero) continue;
    if (b.man) b.man->Plus(b.x.data(), d.data(), y.data()); else for (int i = 0; i < b.size(); ++i) y[i] = b.x[i] + d[i];
    for (int i = 0; i < b.size(); ++i) {
      if (!b.lo.empty()) y[i] = std::min(std::max(y[i], b.lo[i]), b.hi[i]);
      mx = std::max(mx, std::fabs(y[i] - b.x[i])); sq += (y[i] - b.x[i]) * (y[i] - b.x[i]);
    }
  }
  *two = std::sqrt(sq);
  return mx;
}
static void truthful(const Prob& P, const Solver::Options& o, const Solver::Summary& s, double initial, double fixed, const std::vector<std::vector<double>>& start) {
  double now = P.cost();
  if (!anything(P)) { close("final cost of a constant problem", s.final_cost, now, 1e-10); return; }
  close("initial cost", s.initial_cost, initial, 1e-9);
  close("fixed cost", s.fixed_cost, fixed, 1e-9);
  if (s.IsSolutionUsable()) close("final cost is that of the returned parameters", s.final_cost, now, 1e-9);
  else ok("an unusable solution leaves the parameters alone", values(P) == start);
  ok("no cost increase", s.final_cost <= s.initial_cost);
  if (s.iterations.empty()) return;
  int good = 0, where = 0;
  double best = 1e300, last = 0;
  for (size_t k = 0; k < s.iterations.size(); ++k) {
    const IterationSummary& q = s.iterations[k];
    ok("iterations are numbered", q.iteration == int(k));
    if (q.step_is_successful) {
      ++good;
      if (k && !o.use_nonmonotonic_steps && !o.use_inner_iterations) ok("accepted costs decrease", q.cost <= last * (1 + 1e-12));
      if (k && std::fabs(q.cost - best) > 1e-12 * best) ok("monotonicity is reported", q.step_is_nonmonotonic == !(q.cost < best));
      last = q.cost; if (q.cost < best) best = q.cost, where = int(k);
      if (k) ok("accepted steps are valid", q.step_is_valid);
    }
    ok("positive radius", q.trust_region_radius > 0);
  }
  close("iteration 0 reports the initial cost", s.iterations[0].cost, s.initial_cost, 1e-12);
  close("final cost is the best accepted cost", s.final_cost, best, 1e-12);
  ok("successful steps", s.num_successful_steps == good && s.num_unsuccessful_steps == int(s.iterations.size()) - good);
  ok("iteration limit", int(s.iterations.size()) <= o.max_num_iterations + 1);
  const IterationSummary& q = s.iterations.back();
  if (s.termination_type == NO_CONVERGENCE) ok("stops without convergence at the iteration limit only", q.iteration == o.max_num_iterations);
  if (where + 1 == int(s.iterations.size()) && s.IsSolutionUsable()) {
    double two, mx = gradient_norm(P, &two);
    close("gradient max norm is that of the returned point", q.gradient_max_norm, mx, 1e-6);
    close("gradient norm is that of the returned point", q.gradient_norm, two, 1e-6);
    if (s.termination_type == CONVERGENCE && s.message.find("Gradient tolerance") == 0) ok("gradient tolerance", mx <= o.gradient_tolerance * (1 + 1e-6) + 1e-9);
  }
  int nb = 0, npar = 0, ntan = 0, nt = 0, nr = 0, tr = 0, rb = 0, rp = 0, rt = 0;
  for (auto& b : P.b) { ++nb; npar += b.size(); ntan += b.tangent(); bool used = false; for (auto& m : P.t) for (int j : m.blocks) used |= &P.b[j] == &b; if (used && !b.constant && b.tangent() > 0) { ++rb; rp += b.size(); rt += b.tangent(); } }
  for (auto& m : P.t) { ++nt; nr += m.f->num_residuals(); if (!fixed_term(P, m)) tr += m.f->num_residuals(); }
  ok("sizes", s.num_parameter_blocks == nb && s.num_parameters == npar && s.num_effective_parameters == ntan && s.num_residual_blocks == nt && s.num_residuals == nr);
  ok("reduced sizes", s.num_parameter_blocks_reduced == rb && s.num_parameters_reduced == rp && s.num_effective_parameters_reduced == rt && s.num_residuals_reduced == tr);
}
static double fixed_cost(const Prob& P) {
  double c = 0;
  for (auto& m : P.t) if (fixed_term(P, m)) { double q = m.f->value(P.at(m)).squaredNorm(), rho[3] = {q, 1, 0}; if (m.loss) m.loss->Evaluate(q, rho); c += 0.5 * rho[0]; }
  return c;
}
static void solve() {
  Prob P(spec());
  if (rac::coin(0.7)) P.priors(0.5);
  Solver::Options o = options();
  auto start = values(P);
  double initial = P.cost(), fixed = fixed_cost(P);
  o.use_inner_iterations = rac::coin(0.2);
  rac::note("inner", o.use_inner_iterations);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  ok("terminates normally", s.termination_type == CONVERGENCE || s.termination_type == NO_CONVERGENCE || s.termination_type == FAILURE);
  truthful(P, o, s, initial, fixed, start);
  // the same call again gives the same result
  auto first = values(P);
  scatter(P, start);
  Solver::Summary t;
  Solve(o, P.p.get(), &t);
  if (o.num_threads == 1) { ok("deterministic", t.final_cost == s.final_cost && t.iterations.size() == s.iterations.size() && t.termination_type == s.termination_type); ok("deterministic values", values(P) == first); }
  ok("inner iteration steps are counted", !o.use_inner_iterations || s.num_inner_iteration_steps >= 0);
}
// a well conditioned, convex problem has one optimum, whatever the linear algebra
static void agree() {
  Spec s = spec();
  s.eps = 0; s.loss = 0; s.manifold = 0;
  Prob P(s);
  P.priors(1.0);
  if (!anything(P)) return;
  auto start = values(P);
  Eval e = reference(P, all(P.b.size()), all(P.t.size()), true);
  // exact minimiser of the quadratic
  DM H = e.J.transpose() * e.J;
  DV d = -H.completeOrthogonalDecomposition().solve(e.g);
  double best = 0.5 * (e.r + e.J * d).squaredNorm();
  for (auto ls : LS) {
    scatter(P, start);
    Solver::Options o;
    o.logging_type = SILENT;
    o.linear_solver_type = ls;
    o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
    o.max_num_iterations = 100;
    o.function_tolerance = 1e-12; o.parameter_tolerance = 1e-12; o.gradient_tolerance = 1e-10; o.eta = 1e-3;
    o.num_threads = rac::integer(1, 3);
    if (rac::coin(0.3)) o.dynamic_sparsity = ls == SPARSE_NORMAL_CHOLESKY;
    if (rac::coin(0.5)) o.preconditioner_type = ls == ITERATIVE_SCHUR ? (rac::coin() ? SCHUR_JACOBI : JACOBI) : JACOBI;
    if (rac::coin(0.5)) o.use_mixed_precision_solves = (ls == DENSE_NORMAL_CHOLESKY || ls == SPARSE_NORMAL_CHOLESKY), o.max_num_refinement_iterations = 3;
    if (rac::coin(0.4) && (ls == DENSE_SCHUR || ls == SPARSE_SCHUR || ls == ITERATIVE_SCHUR)) {
      auto ord = std::make_shared<ParameterBlockOrdering>();
      // an independent set first: greedy
      std::vector<int> in;
      for (size_t j = 0; j < P.b.size(); ++j) {
        bool free = true;
        for (auto& m : P.t) { bool a = false, c = false; for (int q : m.blocks) { a |= q == int(j); c |= std::find(in.begin(), in.end(), q) != in.end(); } free &= !(a && c); }
        if (free && rac::coin(0.7)) in.push_back(int(j));
        else ord->AddElementToGroup(P.b[j].x.data(), 1);
      }
      for (int j : in) ord->AddElementToGroup(P.b[j].x.data(), 0);
      o.linear_solver_ordering = ord;
    }
    rac::note("linear solver", ls); rac::note("preconditioner", o.preconditioner_type); rac::note("mixed", o.use_mixed_precision_solves);
    Solver::Summary sum;
    Solve(o, P.p.get(), &sum);
    show(sum);
    ok("solves", sum.IsSolutionUsable(), sum.message);
    double tol = o.use_mixed_precision_solves ? 1e-3 : 1e-6;
    close("reaches the optimum", P.cost(), best, tol);
    int off = 0;
    for (size_t j = 0; j < P.b.size(); ++j) { for (int i = 0; i < P.b[j].size(); ++i) close("at the optimal point", P.b[j].x[i], start[j][i] + d(off + i), o.use_mixed_precision_solves ? 5e-2 : 1e-3, 1); off += P.b[j].size(); }
  }
}
struct Cb : IterationCallback {
  std::function<CallbackReturnType(const IterationSummary&)> f;
  CallbackReturnType operator()(const IterationSummary& s) override { return f(s); }
};
static void callbacks() {
  Prob P(spec());
  P.priors(0.5);
  if (!anything(P)) return;
  Solver::Options o = options();
  o.max_num_iterations = 20;
  auto start = values(P);
  int stop = rac::integer(0, 4), calls = 0, later = 0;
  bool abort = rac::coin();
  rac::note("stop", stop); rac::note("abort", abort);
  o.update_state_every_iteration = rac::coin(0.7);
  Cb a, b;
  double best = 1e300;
  std::vector<std::vector<double>> expect = start;
  a.f = [&](const IterationSummary& s) {
    ok("called once per iteration", s.iteration == calls++);
    if (o.update_state_every_iteration) {
      if (s.step_is_successful && s.cost < best) { best = s.cost; close("the state is the best accepted point", P.cost(), s.cost, 1e-9); }
      else close("the state is still the best accepted point", P.cost(), best, 1e-9);
    } else ok("the state is not updated", values(P) == start);
    return s.iteration == stop ? (abort ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY) : SOLVER_CONTINUE;
  };
  b.f = [&](const IterationSummary& s) { ok("later callbacks are not called after one stops", s.iteration != stop); ++later; return SOLVER_CONTINUE; };
  o.callbacks = {&a, &b};
  Solver::Summary s;
  double initial = P.cost();
  Solve(o, P.p.get(), &s);
  show(s);
  if (calls == stop + 1) {
    ok("termination type", s.termination_type == (abort ? USER_FAILURE : USER_SUCCESS));
    if (abort) ok("not usable", !s.IsSolutionUsable());
    else { ok("usable", s.IsSolutionUsable()); close("final cost", s.final_cost, P.cost(), 1e-9); }
    if (abort && !o.update_state_every_iteration) ok("values after an abort", values(P) == start);
    ok("iterations", int(s.iterations.size()) == stop + 1);
  }
}
// user functions that fail: the best point so far is kept and the summary stays truthful
struct Bomb : CostFunction {
  const Fn* f; mutable int left; int mode;
  Bomb(const Fn* f, int left, int mode) : f(f), left(left), mode(mode) { set_num_residuals(f->num_residuals()); *mutable_parameter_block_sizes() = f->parameter_block_sizes(); }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    bool bad = left <= 0 && (mode == 0 || (mode == 1 && J) || (mode == 2 && !J));
    --left;
    if (bad) return false;
    return f->Evaluate(p, r, J);
  }
};
static void failures() {
  Prob P(spec());
  P.priors(0.5);
  Solver::Options o = options();
  o.num_threads = 1;
  o.max_num_iterations = rac::integer(1, 15);
  int j = rac::integer(0, int(P.t.size()) - 1);
  std::vector<double*> ptr;
  for (int q : P.t[j].blocks) ptr.push_back(P.b[q].x.data());
  int left = rac::integer(0, 8), mode = rac::integer(0, 2);
  rac::note("left", left); rac::note("mode", mode);
  std::unique_ptr<Fn> keep;
  // replace the term by one that fails after a while
  P.p->AddResidualBlock(new Bomb(P.t[j].f, left, mode), nullptr, ptr);
  P.t.push_back(P.t[j]);
  P.t.back().loss = nullptr;
  if (fixed_term(P, P.t[j])) return;
  double initial = P.cost();
  auto start = values(P);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  ok("no cost increase", P.cost() <= initial * (1 + 1e-9));
  if (s.iterations.empty()) { ok("a failing first evaluation is a failure", s.termination_type == FAILURE && !s.IsSolutionUsable()); ok("and changes nothing", values(P) == start); return; }
  double best = 1e300;
  for (auto& q : s.iterations) if (q.step_is_successful) best = std::min(best, q.cost);
  if (s.IsSolutionUsable()) close("the best point is kept", P.cost(), best, 1e-9);
  else ok("an unusable solution leaves the parameters alone", values(P) == start);
  if (s.IsSolutionUsable()) close("final cost", s.final_cost, P.cost(), 1e-9);
}
struct Stubborn : Manifold {
  mutable int left; mutable bool tripped = false; bool writes;
  Stubborn(int left, bool writes) : left(left), writes(writes) {}
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 2; }
  bool Plus(const double* x, const double* d, double* y) const override { if (left-- <= 0 && (d[0] || d[1])) { tripped = true; if (writes) y[0] = y[1] = 1e3; return false; } y[0] = x[0] + d[0]; y[1] = x[1] + d[1]; return true; }
  bool PlusJacobian(const double*, double* J) const override { J[0] = J[3] = 1; J[1] = J[2] = 0; return true; }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; d[1] = y[1] - x[1]; return true; }
  bool MinusJacobian(const double* x, double* J) const override { return PlusJacobian(x, J); }
};
static void plus_failures() {
  Spec q;
  q.blocks = 1; q.max_size = 1; q.terms = 0; q.manifold = 0; q.constant = 0;
  Prob P(q);
  P.b[0].x = {1 + rac::unit(), -1 - rac::unit()};
  P.p = std::make_unique<Problem>();
  int left = rac::integer(2, 6);
  rac::note("left", left);
  Stubborn* man = new Stubborn(left, rac::coin(0.3));
  P.p->AddParameterBlock(P.b[0].x.data(), 2, man);
  P.t.clear();
  P.add({0}, 3, 0.5, false, 1);
  P.priors(0.3);
  double initial = P.cost();
  Solver::Options o = options();
  o.max_num_iterations = rac::integer(3, 12);
  o.function_tolerance = 0; o.gradient_tolerance = 1e-12;
  o.initial_trust_region_radius = 1;
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  if (s.IsSolutionUsable()) close("final cost", s.final_cost, P.cost(), 1e-9);
  ok("no cost increase", P.cost() <= initial * (1 + 1e-9));
  if (man->tripped && s.termination_type == CONVERGENCE) {
    // converged although the last candidates could not be computed: only if a criterion really holds
    double two, g = gradient_norm(P, &two);
    ok("a step that cannot be computed is not convergence", s.message.find("Parameter tolerance") != 0 && s.message.find("Function tolerance") != 0, s.message);
  }
}
// evaluation callbacks see every point before it is evaluated
struct Prep : EvaluationCallback {
  Prob* P; std::vector<std::vector<double>> last; bool jac = false; int calls = 0, news = 0;
  void PrepareForEvaluation(bool j, bool fresh) override {
    ++calls;
    auto v = values(*P);
    if (calls > 1 && !fresh) ok("a point that is not new is the previous one", v == last);
    if (calls == 1) ok("the first point is new", fresh);
    last = v; jac = j; news += fresh;
  }
};
struct Seen : CostFunction {
  const Fn* f; Prep* prep; Prob* P; std::vector<int> blocks;
  Seen(const Fn* f, Prep* p, Prob* P, std::vector<int> b) : f(f), prep(p), P(P), blocks(b) { set_num_residuals(f->num_residuals()); *mutable_parameter_block_sizes() = f->parameter_block_sizes(); }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    ok("prepared", prep->calls > 0);
    for (size_t k = 0; k < blocks.size(); ++k) for (int i = 0; i < P->b[blocks[k]].size(); ++i) ok("evaluated at the prepared point", p[k][i] == prep->last[blocks[k]][i]);
    if (J) ok("Jacobians are announced", prep->jac);
    return f->Evaluate(p, r, J);
  }
};
static void prepared() {
  Prep prep;
  Problem::Options po;
  po.evaluation_callback = &prep;
  Prob P(spec(), po);
  prep.P = &P;
  if (!anything(P)) return;
  int n = int(P.t.size());
  for (int i = 0; i < n; ++i) {
    std::vector<double*> ptr;
    for (int q : P.t[i].blocks) ptr.push_back(P.b[q].x.data());
    P.p->AddResidualBlock(new Seen(P.t[i].f, &prep, &P, P.t[i].blocks), nullptr, ptr);
    Term m = P.t[i];
    m.loss = nullptr;
    P.t.push_back(m);
  }
  double initial = P.cost();
  Solver::Options o = options();
  if (rac::coin(0.3)) o.minimizer_type = LINE_SEARCH;
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  if (s.termination_type != FAILURE) { close("final cost", s.final_cost, P.cost(), 1e-9); ok("no cost increase", P.cost() <= initial * (1 + 1e-9)); }
}
static void bounded() {
  Prob P(spec(true));
  P.priors(0.5);
  for (auto& b : P.b) {
    int n = b.size();
    b.lo.assign(n, -1e300); b.hi.assign(n, 1e300);
    for (int i = 0; i < n; ++i) {
      if (rac::coin(0.5)) P.p->SetParameterLowerBound(b.x.data(), i, b.lo[i] = b.x[i] - rac::unit());
      if (rac::coin(0.5)) P.p->SetParameterUpperBound(b.x.data(), i, b.hi[i] = b.x[i] + rac::unit());
    }
  }
  if (!anything(P)) return;
  Solver::Options o = options();
  o.trust_region_strategy_type = LEVENBERG_MARQUARDT;
  if (rac::coin(0.3)) o.max_num_line_search_step_size_iterations = 0;
  auto start = values(P);
  double initial = P.cost(), fixed = fixed_cost(P);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  truthful(P, o, s, initial, fixed, start);
  bool any = false;
  for (auto& b : P.b) if (!b.constant) for (int i = 0; i < b.size(); ++i) any |= b.lo[i] > -1e300 || b.hi[i] < 1e300;
  ok("line search steps are counted from zero", s.num_line_search_steps >= 0);
}
static void inner() {
  Spec q = spec();
  q.manifold = 0; q.constant = 0; q.blocks = rac::integer(2, 4);
  Prob P(q);
  P.priors(0.5);
  Solver::Options o = options();
  o.trust_region_strategy_type = LEVENBERG_MARQUARDT;
  o.use_inner_iterations = true;
  o.inner_iteration_tolerance = 0;
  o.max_num_iterations = 3;
  double initial = P.cost();
  struct Count : IterationCallback { int n = 0, valid = 0; CallbackReturnType operator()(const IterationSummary& s) override { if (s.iteration) { ++n; valid += s.step_is_valid; } return SOLVER_CONTINUE; } } cnt;
  o.callbacks.push_back(&cnt);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  if (!s.inner_iterations_used) return;
  if (s.IsSolutionUsable()) close("final cost", s.final_cost, P.cost(), 1e-9);
  ok("no cost increase", P.cost() <= initial * (1 + 1e-9));
  // every valid step evaluates and may be refined; steps that end the solve are not reported to callbacks
  ok("inner iteration steps", s.num_inner_iteration_steps <= cnt.valid + 1 && (cnt.valid == 0 || s.num_inner_iteration_steps >= 1));
}
// The minimizer alone, with an evaluator and a strategy that misbehave on purpose.
struct OneEvaluator : internal::Evaluator {
  double e, fail_above;
  static double f(double x, double e) { return x * x + e; }
  std::unique_ptr<internal::SparseMatrix> CreateJacobian() const final { return std::make_unique<internal::DenseSparseMatrix>(1, 1); }
  bool Evaluate(const EvaluateOptions&, const double* x, double* cost, double* r, double* g, internal::SparseMatrix* J) final {
    double v = f(x[0], e);
    if (x[0] > fail_above) return false;
    if (cost) *cost = 0.5 * v * v;
    if (r) r[0] = v;
    if (g) g[0] = v * 2 * x[0];
    if (J) J->mutable_values()[0] = 2 * x[0];
    return true;
  }
  bool Plus(const double* x, const double* d, double* y) const final { y[0] = x[0] + d[0]; return true; }
  int NumParameters() const final { return 1; }
  int NumEffectiveParameters() const final { return 1; }
  int NumResiduals() const final { return 1; }
};
struct Told { char what; double value; };
struct OneStrategy : internal::TrustRegionStrategy {
  std::vector<Told>* log;
  double fail, uphill;
  Summary ComputeStep(const PerSolveOptions&, internal::SparseMatrix* J, const double* r, double* step) final {
    Summary s;
    s.num_iterations = 1;
    s.residual_norm = 0;
    double a = static_cast<internal::DenseSparseMatrix*>(J)->matrix()(0, 0);
    char what = 's';
    double t = rac::coin(0.2) ? 5.0 : rac::coin(0.3) ? 0.3 : 0.7;
    if (rac::coin(fail)) { what = 'f'; s.termination_type = internal::LinearSolverTerminationType::FAILURE; }
    else {
      s.termination_type = rac::coin() ? internal::LinearSolverTerminationType::SUCCESS : internal::LinearSolverTerminationType::NO_CONVERGENCE;
      if (rac::coin(uphill)) { what = 'u'; t = -0.7; }
      else if (t == 5.0) { what = 'u'; }                 // beyond twice the minimum of the model
    }
    step[0] = -t * r[0] / a;
    log->push_back({what, step[0]});
    return s;
  }
  void StepAccepted(double q) final { log->push_back({'A', q}); }
  void StepRejected(double q) final { log->push_back({'R', q}); }
  void StepIsInvalid() final { log->push_back({'I', 0}); }
  double Radius() const final { return 1; }
};
static void minimizer_alone() {
  internal::Minimizer::Options o;
  static internal::ContextImpl ctx;
  o.context = &ctx;
  o.num_threads = 1;
  o.max_num_iterations = rac::integer(1, 25);
  o.max_num_consecutive_invalid_steps = rac::integer(1, 5);
  o.jacobi_scaling = false;
  o.is_silent = true;
  o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0;
  o.min_trust_region_radius = 0;
  o.min_relative_decrease = 1e-3;
  auto ev = std::make_unique<OneEvaluator>();
  ev->e = rac::positive("e");
  ev->fail_above = rac::coin(0.3) ? 4.0 : 1e30;
  const double e = ev->e, lim = ev->fail_above;
  std::vector<Told> log;
  auto st = std::make_unique<OneStrategy>();
  st->log = &log;
  st->fail = rac::unit() * 0.8;
  st->uphill = rac::unit() * 0.3;
  o.jacobian = ev->CreateJacobian();
  o.evaluator = std::move(ev);
  o.trust_region_strategy = std::move(st);
  double x = 1 + 3 * rac::unit(), y = x;
  rac::note("x", x); rac::note("limit", o.max_num_consecutive_invalid_steps); rac::note("iterations", o.max_num_iterations);
  Solver::Summary s;
  internal::TrustRegionMinimizer m;
  m.Minimize(o, &x, &s);
  size_t k = 0;
  int run = 0, steps = 0, good = 0, bad = 0;
  bool failed = false, ended = false;
  auto cost = [&](double z) { double v = OneEvaluator::f(z, e); return 0.5 * v * v; };
  while (k < log.size()) {
    Told t = log[k++];
    if (!ok("each step is asked for once, and its outcome told once", strchr("sfu", t.what))) return;
    ++steps;
    double r = OneEvaluator::f(y, e), a = 2 * y, mc = -(a * t.value) * (r + a * t.value / 2);
    bool valid = t.what != 'f' && mc > 0;
    if (t.what == 'u' && std::fabs(mc) < 1e-12 * r * r) return;
    if (!valid) {
      if (++run >= o.max_num_consecutive_invalid_steps) { failed = true; break; }
      ++bad;
      if (!ok("an invalid step below the limit of consecutive invalid steps is reported to the strategy", k < log.size() && log[k].what == 'I')) return;
      ++k;
      continue;
    }
    run = 0;
    double z = y + t.value, q = z > lim ? -1 : (cost(y) - cost(z)) / mc;
    if (std::fabs(q - 1e-3) < 1e-9) return;
    if (t.value == 0 || std::fabs(cost(y) - cost(z)) == 0) { ended = true; break; }
    bool accept = q > 1e-3;
    if (!ok("a valid step is accepted or rejected", k < log.size())) return;
    if (!ok("accepted exactly when the relative decrease is sufficient", log[k].what == (accept ? 'A' : 'R'))) return;
    if (accept) { close("step quality", log[k].value, q, 1e-8); y = z; ++good; } else ++bad;
    ++k;
  }
  ok("nothing after the end", k == log.size());
  if (!ended) {
    ok("FAILURE exactly after the allowed number of consecutive invalid steps", failed == (s.termination_type == FAILURE), s.message);
    if (!failed) ok("iteration limit", steps == o.max_num_iterations && s.termination_type == NO_CONVERGENCE, s.message);
    ok("successful steps counted", s.num_successful_steps == good + 1 || s.num_successful_steps == good);
  }
  close("the final point is the last accepted one", x, y, 1e-12);
}

int main(int c, char** v) {
  rac::init(c, v);
  rac::group("minimizer alone", 1500, minimizer_alone);
  rac::group("Solve", 800, solve);
  rac::group("linear solvers agree", 120, agree);
  rac::group("callbacks", 400, callbacks);
  rac::group("failing cost functions", 500, failures);
  rac::group("failing Plus", 300, plus_failures);
  rac::group("evaluation callbacks", 300, prepared);
  rac::group("bounds", 500, bounded);
  rac::group("inner iterations", 200, inner);
  return rac::finish();
}
