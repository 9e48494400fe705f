// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include "nls.h"
#include "ceres/evaluator.h"
#include "ceres/gradient_problem_evaluator.h"
#include "ceres/line_search.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/low_rank_inverse_hessian.h"
RAC_MAIN_SUPPORT
using namespace nls;
using namespace ceres::internal;
using rac::close; using rac::ok;
static std::vector<std::vector<double>> values(const Prob& P) { std::vector<std::vector<double>> v; for (auto& b : P.b) v.push_back(b.x); return v; }
template <typename S> static void show(const S& s) { if (!getenv("SHOW")) return; puts(s.FullReport().c_str()); for (auto& q : s.iterations) printf("%d %d %d %.15g step %g norm %g g %g\n", q.iteration, q.step_is_valid, q.step_is_successful, q.cost, q.step_size, q.step_norm, q.gradient_max_norm); }
template <typename O> static void options(O* o) {
  o->logging_type = SILENT;
  o->max_num_iterations = rac::integer(0, 40);
  o->line_search_direction_type = static_cast<LineSearchDirectionType>(rac::integer(0, 3));
  o->line_search_type = o->line_search_direction_type >= LBFGS || rac::coin() ? WOLFE : ARMIJO;
  o->nonlinear_conjugate_gradient_type = static_cast<NonlinearConjugateGradientType>(rac::integer(0, 2));
  o->line_search_interpolation_type = static_cast<LineSearchInterpolationType>(rac::integer(0, 2));
  o->max_lbfgs_rank = rac::integer(1, 6);
  o->use_approximate_eigenvalue_bfgs_scaling = rac::coin();
  o->max_num_line_search_step_size_iterations = rac::coin(0.3) ? rac::integer(1, 4) : 20;
  o->function_tolerance = rac::coin() ? 1e-6 : 0;
  o->parameter_tolerance = rac::coin() ? 1e-8 : 0;
  o->gradient_tolerance = std::pow(10.0, -rac::integer(4, 12));
  if (rac::coin(0.3)) o->line_search_sufficient_curvature_decrease = 0.1 + 0.5 * rac::unit();
  if (rac::coin(0.3)) o->line_search_sufficient_function_decrease = std::pow(10.0, -rac::integer(2, 5));
  if (rac::coin(0.3)) o->max_line_search_step_contraction = 0.1, o->min_line_search_step_contraction = 0.5 + 0.5 * rac::unit();
  if (rac::coin(0.3)) o->max_line_search_step_expansion = 1.5 + 5 * rac::unit();
  rac::note("iterations", o->max_num_iterations); rac::note("direction", o->line_search_direction_type); rac::note("wolfe", o->line_search_type == WOLFE);
  rac::note("interpolation", o->line_search_interpolation_type); rac::note("ncg", o->nonlinear_conjugate_gradient_type); rac::note("tries", o->max_num_line_search_step_size_iterations);
}
template <typename S> static void iterations(const S& s, int limit, double initial, double final_cost) {
  double last = initial, best = initial;
  for (size_t k = 0; k < s.iterations.size(); ++k) {
    const IterationSummary& q = s.iterations[k];
    ok("iterations are numbered", q.iteration == int(k));
    ok("accepted steps are valid and successful", q.step_is_valid && q.step_is_successful && !q.step_is_nonmonotonic);
    if (!k) { close("iteration 0 reports the initial cost", q.cost, initial, 1e-12); continue; }
    ok("no cost increase", q.cost <= last * (1 + 1e-12) + 1e-300 || q.cost <= last + 1e-12 * std::fabs(last));
    close("cost change", q.cost_change, last - q.cost, 1e-9, std::fabs(last) + std::fabs(q.cost));
    ok("line search evaluations are counted", q.line_search_function_evaluations >= 1 && q.line_search_gradient_evaluations >= 0 && q.line_search_iterations >= 0);
    ok("step sizes", q.step_size >= 0 && q.step_norm >= 0);
    last = q.cost;
    best = std::min(best, last);
  }
  ok("iteration limit", int(s.iterations.size()) <= limit + 1);
  if (s.termination_type == NO_CONVERGENCE && !s.iterations.empty()) ok("stops without convergence at the iteration limit only", s.iterations.back().iteration == limit, s.message);
  if (s.IsSolutionUsable()) close("final cost is the best accepted cost", final_cost, best, 1e-12);
}
static double gradient_norm(const Prob& P, double* two) {
  Eval e = reference(P, all(P.b.size()), all(P.t.size()), true);
  double mx = 0, sq = 0; int o = 0;
  for (auto& b : P.b) {
    std::vector<double> d(b.tangent() + 1, 0), y(b.size());
    bool zero = true;
    for (int i = 0; i < b.tangent(); ++i) { d[i] = -e.g(o + i); zero &= d[i] == 0; }
    o += b.tangent();
    if (b.constant || zero) continue;
    if (b.man) b.man->Plus(b.x.data(), d.data(), y.data()); else for (int i = 0; i < b.size(); ++i) y[i] = b.x[i] + d[i];
    for (int i = 0; i < b.size(); ++i) { mx = std::max(mx, std::fabs(y[i] - b.x[i])); sq += (y[i] - b.x[i]) * (y[i] - b.x[i]); }
  }
  *two = std::sqrt(sq);
  return mx;
}
static bool anything(const Prob& P) { for (auto& m : P.t) for (int j : m.blocks) if (!P.b[j].constant && P.b[j].tangent() > 0) return true; return false; }
static Spec spec() {
  Spec s;
  s.blocks = rac::integer(1, 5); s.terms = rac::integer(1, 8); s.constant = 0.2; s.manifold = 0.3; s.eps = rac::coin() ? 0.3 : 0; s.loss = 0.3;
  rac::note("blocks", s.blocks); rac::note("terms", s.terms); rac::note("eps", s.eps);
  return s;
}
static void solve() {
  Prob P(spec());
  if (rac::coin(0.7)) P.priors(0.5);
  if (!anything(P)) return;
  Solver::Options o;
  options(&o);
  o.minimizer_type = LINE_SEARCH;
  auto start = values(P);
  double initial = P.cost();
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  show(s);
  ok("terminates normally", s.termination_type == CONVERGENCE || s.termination_type == NO_CONVERGENCE || s.termination_type == FAILURE);
  close("initial cost", s.initial_cost, initial, 1e-9);
  iterations(s, o.max_num_iterations, s.initial_cost, s.final_cost);
  if (!s.IsSolutionUsable()) { ok("an unusable solution leaves the parameters alone", values(P) == start); return; }
  close("final cost is that of the returned parameters", s.final_cost, P.cost(), 1e-9);
  if (s.iterations.empty()) return;
  const IterationSummary& q = s.iterations.back();
  if (q.cost < s.iterations[0].cost || s.iterations.size() == 1) {
    double two, mx = gradient_norm(P, &two);
    close("gradient max norm is that of the returned point", q.gradient_max_norm, mx, 1e-6);
    close("gradient norm is that of the returned point", q.gradient_norm, two, 1e-6);
    if (s.termination_type == CONVERGENCE && s.message.find("Gradient tolerance") == 0) ok("gradient tolerance", mx <= o.gradient_tolerance * (1 + 1e-6) + 1e-9);
  }
  ok("successful steps", s.num_successful_steps == int(s.iterations.size()) - 1 && s.num_unsuccessful_steps == 0);
}
// f(x) = 1/2 x'Ax + b'x + e sum sin(x_i + i), optionally failing in a half space
struct F : FirstOrderFunction {
  DM A; DV b; double e; DV a; double edge = 1e300; mutable int cost_only = 0, with_gradient = 0, bad = 0; int mode = 0; int n;
  F(int n, double e, double cond) : b(n), e(e), n(n) {
    DM G(n, n);
    for (int i = 0; i < n; ++i) { b(i) = rac::gauss(); for (int j = 0; j < n; ++j) G(i, j) = rac::gauss(); }
    DM Q = G.householderQr().householderQ();
    DV d(n);
    for (int i = 0; i < n; ++i) d(i) = std::pow(cond, rac::unit());
    A = Q * d.asDiagonal() * Q.transpose();
  }
  double value(const DV& x) const { double v = 0.5 * x.dot(A * x) + b.dot(x); for (int i = 0; i < n; ++i) v += e * std::sin(x(i) + i); return v; }
  DV gradient(const DV& x) const { DV g = A * x + b; for (int i = 0; i < n; ++i) g(i) += e * std::cos(x(i) + i); return g; }
  // the half space starts at this distance from x, in a random direction or that of descent
  void fail(const DV& x) {
    a = rac::coin() ? DV(-gradient(x)) : DV(b);
    for (int i = 0; i < n; ++i) a(i) += 0.1 * rac::gauss();
    a /= a.norm();
    double d = std::pow(10.0, rac::integer(-3, 0)) * (rac::coin(0.1) ? -1 : 1);
    edge = a.dot(x) + d;
    mode = rac::integer(0, 3);
    rac::note("distance", d); rac::note("mode", mode);
  }
  bool Evaluate(const double* p, double* c, double* g) const override {
    DV x = Eigen::Map<const DV>(p, n);
    ++(g ? with_gradient : cost_only);
    *c = value(x);
    if (g) Eigen::Map<DV>(g, n) = gradient(x);
    if (edge > 1e200 || a.dot(x) <= edge) return true;
    ++bad;
    switch (mode) {
      case 0: return false;
      case 1: *c = NAN; return true;
      case 2: if (g) for (int i = 0; i < n; ++i) g[i] = INFINITY; return true;
      default: return !g;
    }
  }
  int NumParameters() const override { return n; }
};
static DV projected(const F& f, const Manifold* m, const DV& x) {
  DV g = f.gradient(x);
  if (!m) return g;
  Eigen::Matrix<double, -1, -1, Eigen::RowMajor> J(f.n, m->TangentSize());
  m->PlusJacobian(x.data(), J.data());
  return J.transpose() * g;
}
static void gradient_solver() {
  int n = rac::integer(1, 6);
  double eps = rac::coin() ? 0 : 1.5;
  rac::note("n", n); rac::note("eps", eps);
  F* f = new F(n, eps, std::pow(10.0, rac::integer(0, 3)));
  Manifold* m = nullptr;
  bool sphere = false;
  if (n >= 2 && rac::coin(0.4)) { if (rac::coin()) { m = new SphereManifold<DYNAMIC>(n); sphere = true; } else m = new SubsetManifold(n, {rac::integer(0, n - 1)}); }
  rac::note("manifold", m ? 1 + sphere : 0);
  std::unique_ptr<GradientProblem> p(m ? new GradientProblem(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(m)) : new GradientProblem(std::unique_ptr<FirstOrderFunction>(f)));
  GradientProblemSolver::Options o;
  options(&o);
  o.update_state_every_iteration = rac::coin();
  bool failing = rac::coin(0.3);
  DV x(n);
  for (int i = 0; i < n; ++i) x(i) = rac::gauss() * 2;
  if (sphere) x /= x.norm();
  if (failing) f->fail(x);
  DV start = x;
  struct Cb : IterationCallback {
    std::function<CallbackReturnType(const IterationSummary&)> f;
    CallbackReturnType operator()(const IterationSummary& s) override { return f(s); }
  } cb;
  int calls = 0;
  cb.f = [&](const IterationSummary& s) {
    ok("called once per iteration", s.iteration == calls++);
    if (!o.update_state_every_iteration) ok("the state is not updated", x == start);
    else close("the state is that of the iteration", f->value(x), s.cost, 1e-9, 1 + std::fabs(s.cost));
    return SOLVER_CONTINUE;
  };
  o.callbacks.push_back(&cb);
  GradientProblemSolver::Summary s;
  Solve(o, *p, x.data(), &s);
  show(s);
  double initial = f->value(start);
  if (failing && f->a.dot(start) > f->edge) { ok("a failing first evaluation is a failure", s.termination_type == FAILURE); ok("and changes nothing", x == start); return; }
  close("initial cost", s.initial_cost, initial, 1e-9, 1 + std::fabs(initial));
  iterations(s, o.max_num_iterations, s.initial_cost, s.final_cost);
  ok("evaluations are counted", s.num_cost_evaluations == f->cost_only && s.num_gradient_evaluations == f->with_gradient);
  ok("values are finite", x.allFinite());
  if (!s.IsSolutionUsable()) {
    if (o.update_state_every_iteration) ok("no cost increase", f->value(x) <= initial + 1e-12 * std::fabs(initial));
    else ok("an unusable solution leaves the parameters alone", x == start);
    return;
  }
  close("final cost is that of the returned parameters", s.final_cost, f->value(x), 1e-9, 1 + std::fabs(s.final_cost));
  ok("no cost increase", s.final_cost <= s.initial_cost);
  if (s.iterations.empty() || sphere) return;
  double g = projected(*f, m, x).lpNorm<Eigen::Infinity>();
  const IterationSummary& q = s.iterations.back();
  if (q.cost < s.iterations[0].cost || s.iterations.size() == 1) {
    close("gradient max norm is that of the returned point", q.gradient_max_norm, g, 1e-6, 1e-3);
    if (s.termination_type == CONVERGENCE && s.message.find("Gradient tolerance") == 0) ok("gradient tolerance", g <= o.gradient_tolerance * (1 + 1e-6) + 1e-9);
  }
}
// every method finds the minimum of a convex quadratic
static void quadratics() {
  int n = rac::integer(1, 5);
  F* f = new F(n, 0, 5);
  GradientProblem p{std::unique_ptr<FirstOrderFunction>(f)};
  GradientProblemSolver::Options o;
  options(&o);
  o.max_num_iterations = 500;
  o.max_num_line_search_step_size_iterations = 30;
  if (rac::coin()) o.line_search_type = WOLFE;
  if (o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT) { o.line_search_type = WOLFE; o.line_search_sufficient_curvature_decrease = 0.1; }
  o.line_search_sufficient_function_decrease = 1e-4;
  o.function_tolerance = 1e-14; o.parameter_tolerance = 1e-14; o.gradient_tolerance = 1e-6;
  DV x(n);
  for (int i = 0; i < n; ++i) x(i) = rac::gauss() * 2;
  GradientProblemSolver::Summary s;
  Solve(o, p, x.data(), &s);
  show(s);
  ok("usable", s.IsSolutionUsable(), s.message);
  DV best = -f->A.ldlt().solve(f->b);
  close("reaches the minimum", f->value(x), f->value(best), 1e-8, 1 + std::fabs(f->value(best)));
}
static double wolfe_value(const F& f, const DV& x, const DV& d, double t, double* slope) { DV y = x + t * d; *slope = f.gradient(y).dot(d); return f.value(y); }
static void searches() {
  int n = rac::integer(1, 4);
  F* f = new F(n, rac::coin() ? 0 : 3, 10);
  GradientProblem p{std::unique_ptr<FirstOrderFunction>(f)};
  GradientProblemEvaluator ev(p);
  LineSearchFunction lf(&ev);
  LineSearch::Options o;
  o.function = &lf;
  o.is_silent = true;
  o.interpolation_type = static_cast<LineSearchInterpolationType>(rac::integer(0, 2));
  o.max_num_iterations = rac::integer(1, 12);
  o.sufficient_decrease = rac::coin() ? 1e-4 : 0.2;
  o.sufficient_curvature_decrease = rac::coin() ? 0.9 : 0.3;
  o.max_step_expansion = rac::coin() ? 10 : 2;
  o.max_step_contraction = rac::coin() ? 1e-3 : 0.2;
  o.min_step_contraction = rac::coin() ? 0.9 : 0.5;
  bool wolfe = rac::coin();
  rac::note("wolfe", wolfe); rac::note("interpolation", o.interpolation_type); rac::note("tries", o.max_num_iterations); rac::note("n", n);
  DV x(n);
  for (int i = 0; i < n; ++i) x(i) = rac::gauss() * 3;
  DV g = f->gradient(x), d = -g;
  if (rac::coin()) { for (int i = 0; i < n; ++i) d(i) += 0.3 * g.norm() * (rac::unit() - 0.5); if (d.dot(g) >= 0) d = -g; }
  double slope = g.dot(d), v = f->value(x);
  if (!(slope < -1e-8)) return;
  double first = std::pow(10.0, rac::integer(-3, 1)) * (0.5 + rac::unit());
  bool failing = rac::coin(0.3);
  if (failing) f->fail(x);
  if (failing && f->a.dot(x) > f->edge) return;
  f->cost_only = f->with_gradient = 0;
  lf.Init(x, d);
  std::string error;
  auto ls = LineSearch::Create(wolfe ? WOLFE : ARMIJO, o, &error);
  LineSearch::Summary s;
  ls->Search(first, v, slope, &s);
  ok("evaluations are counted", s.num_function_evaluations == f->cost_only + f->with_gradient || s.num_function_evaluations == f->cost_only + (wolfe ? f->with_gradient : 0), std::to_string(s.num_function_evaluations) + " " + std::to_string(f->cost_only) + " " + std::to_string(f->with_gradient));
  ok("gradient evaluations are counted", s.num_gradient_evaluations == f->with_gradient);
  ok("bounded work", s.num_iterations <= o.max_num_iterations + (wolfe ? 1 : 0), std::to_string(s.num_iterations));
  if (!s.success) { ok("a failure is explained", !s.error.empty()); return; }
  const FunctionSample& q = s.optimal_point;
  ok("a finite step", q.x >= 0 && std::isfinite(q.x) && q.vector_x_is_valid && q.value_is_valid);
  double at, w = wolfe_value(*f, x, d, q.x, &at);
  for (int i = 0; i < n; ++i) close("point of the step", q.vector_x(i), x(i) + q.x * d(i), 1e-12, 1);
  close("value of the step", q.value, w, 1e-10, 1 + std::fabs(w));
  if (q.gradient_is_valid) close("slope of the step", q.gradient, at, 1e-9, 1 + std::fabs(slope));
  if (q.vector_gradient_is_valid) { DV h = f->gradient(q.vector_x); for (int i = 0; i < n; ++i) close("gradient of the step", q.vector_gradient(i), h(i), 1e-9, 1); }
  if (failing) ok("only valid points are returned", f->mode > 1 || f->a.dot(q.vector_x) <= f->edge + 1e-12);
  ok("never uphill", w <= v + 1e-12 * std::fabs(v));
  if (!wolfe) ok("sufficient decrease", w <= v + o.sufficient_decrease * slope * q.x + 1e-10 * (1 + std::fabs(v)));
  else if (!failing && s.num_iterations < o.max_num_iterations && q.x > 0 && q.x < first * 0.999e5 && s.error.empty()) {
    ok("Wolfe: sufficient decrease", w <= v + o.sufficient_decrease * slope * q.x + 1e-10 * (1 + std::fabs(v)));
    ok("Wolfe: sufficient curvature", std::fabs(at) <= o.sufficient_curvature_decrease * std::fabs(slope) * (1 + 1e-9) + 1e-9);
  }
}
// search directions against explicit inverse Hessian updates
static void directions() {
  int n = rac::integer(1, 6), rank = rac::integer(1, 4), k = rac::integer(2, 8);
  LineSearchDirection::Options o;
  o.num_parameters = n; o.type = rac::coin() ? LBFGS : BFGS; o.max_lbfgs_rank = rank; o.use_approximate_eigenvalue_bfgs_scaling = rac::coin(); o.function_tolerance = 1e-12;
  rac::note("n", n); rac::note("rank", rank); rac::note("points", k); rac::note("bfgs", o.type == BFGS); rac::note("scaled", o.use_approximate_eigenvalue_bfgs_scaling);
  auto d = LineSearchDirection::Create(o);
  F f(n, rac::coin() ? 0 : 0.8, 10);
  LineSearchMinimizer::State cur(n, n), prev(n, n);
  DV x(n);
  for (int i = 0; i < n; ++i) x(i) = rac::gauss();
  std::vector<std::pair<DV, DV>> pairs;
  double scale = 1;
  for (int i = 0; i < k; ++i) {
    prev = cur;
    cur.gradient = f.gradient(x);
    cur.gradient_squared_norm = cur.gradient.squaredNorm();
    bool good = true;
    if (i == 0) cur.search_direction = -cur.gradient;
    else {
      good = d->NextDirection(prev, cur, &cur.search_direction);
      DV s = prev.step_size * prev.search_direction, y = cur.gradient - prev.gradient;
      if (s.dot(y) > 1e-14) pairs.emplace_back(s, y);
      if (o.use_approximate_eigenvalue_bfgs_scaling && !pairs.empty()) scale = o.type == BFGS ? pairs[0].first.dot(pairs[0].second) / pairs[0].second.squaredNorm() : pairs.back().first.dot(pairs.back().second) / pairs.back().second.squaredNorm();
      DM H = DM::Identity(n, n) * scale;
      size_t from = o.type == LBFGS && pairs.size() > size_t(rank) ? pairs.size() - rank : 0;
      for (size_t j = from; j < pairs.size(); ++j) {
        double rho = 1 / pairs[j].first.dot(pairs[j].second);
        DM V = DM::Identity(n, n) - rho * pairs[j].second * pairs[j].first.transpose();
        H = V.transpose() * H * V + rho * pairs[j].first * pairs[j].first.transpose();
      }
      DV want = -H * cur.gradient;
      for (int j = 0; j < n; ++j) close("direction", cur.search_direction(j), want(j), 1e-6, want.norm() + 1e-6);
      ok("accepted directions descend", good == (cur.search_direction.dot(cur.gradient) < 0));
    }
    if (!good) break;
    cur.step_size = 0.02 + 0.3 * rac::unit();
    if (cur.gradient.norm() < 1e-6) break;
    x += cur.step_size * cur.search_direction;
  }
}
static void callbacks() {
  F* f = new F(rac::integer(1, 5), 1.0, 100);
  GradientProblem p{std::unique_ptr<FirstOrderFunction>(f)};
  GradientProblemSolver::Options o;
  options(&o);
  o.max_num_iterations = 20;
  o.function_tolerance = o.parameter_tolerance = 0;
  struct Cb : IterationCallback { int stop, calls = 0; bool abort; CallbackReturnType operator()(const IterationSummary& s) override { ++calls; return s.iteration == stop ? abort ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY : SOLVER_CONTINUE; } } a, b;
  a.stop = rac::integer(0, 4); a.abort = rac::coin(); b.stop = -1; b.abort = false;
  rac::note("stop", a.stop); rac::note("abort", a.abort);
  o.callbacks = {&a, &b};
  DV x(f->n);
  for (int i = 0; i < f->n; ++i) x(i) = rac::gauss() * 2;
  DV start = x;
  GradientProblemSolver::Summary s;
  Solve(o, p, x.data(), &s);
  show(s);
  if (a.calls == a.stop + 1 && b.calls == a.stop) {
    ok("termination type", s.termination_type == (a.abort ? USER_FAILURE : USER_SUCCESS));
    if (a.abort) { ok("not usable", !s.IsSolutionUsable()); ok("values after an abort", x == start); }
    else { ok("usable", s.IsSolutionUsable()); close("final cost", s.final_cost, f->value(x), 1e-9, 1 + std::fabs(s.final_cost)); }
    ok("iterations", int(s.iterations.size()) == a.stop + 1);
  } else ok("every callback sees every iteration", a.calls == b.calls);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Solve with line search", 600, solve);
  rac::group("GradientProblemSolver", 1500, gradient_solver);
  rac::group("convex quadratics", 500, quadratics);
  rac::group("searches", 3000, searches);
  rac::group("directions", 1000, directions);
  rac::group("callbacks", 400, callbacks);
  return rac::finish();
}
