// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include "nls.h"
RAC_MAIN_SUPPORT
using namespace nls;
using rac::close; using rac::ok;
static const double BIG = std::numeric_limits<double>::max();
// the Problem interface against a model of what the user said
static void api() {
  Spec s;
  s.blocks = rac::integer(1, 4); s.terms = rac::integer(0, 4); s.manifold = 0.3; s.constant = 0.3;
  Prob P(s);
  struct M { std::vector<double> lo, hi; bool constant; const Manifold* man; };
  std::vector<M> m;
  for (auto& b : P.b) m.push_back({std::vector<double>(b.size(), -BIG), std::vector<double>(b.size(), BIG), b.constant, b.man});
  std::vector<double> values;
  for (int step = 0; step < 12; ++step) {
    int j = rac::integer(0, int(P.b.size()) - 1);
    Block& b = P.b[j];
    double* x = b.x.data();
    int i = rac::integer(0, b.size() - 1);
    int k = rac::integer(0, 6);
    rac::note("op", k); rac::note("block", j); rac::note("index", i);
    switch (k) {
      case 0: { double v = rac::coin(0.2) ? BIG : rac::gauss(); P.p->SetParameterUpperBound(x, i, v); m[j].hi[i] = v; break; }
      case 1: { double v = rac::coin(0.2) ? -BIG : rac::gauss(); P.p->SetParameterLowerBound(x, i, v); m[j].lo[i] = v; break; }
      case 2: P.p->SetParameterBlockConstant(x); m[j].constant = true; break;
      case 3: P.p->SetParameterBlockVariable(x); m[j].constant = false; break;
      case 4: { Manifold* n = rac::coin() ? nullptr : rac::coin() ? static_cast<Manifold*>(new EuclideanManifold<DYNAMIC>(b.size())) : new SubsetManifold(b.size(), b.size() > 1 ? std::vector<int>{i} : std::vector<int>{}); P.p->SetManifold(x, n); m[j].man = n; b.man = n; break; }
      case 5: for (auto& v : b.x) v = rac::gauss(); break;   // a user changing values between calls
      case 6: P.p->AddParameterBlock(x, b.size()); break;   // repeated additions change nothing
    }
    for (size_t q = 0; q < P.b.size(); ++q) {
      double* y = P.b[q].x.data();
      int n = P.b[q].size();
      ok("manifold", P.p->GetManifold(y) == m[q].man && P.p->HasManifold(y) == (m[q].man != nullptr));
      int t = m[q].man ? m[q].man->TangentSize() : n;
      ok("sizes", P.p->ParameterBlockSize(y) == n && P.p->ParameterBlockTangentSize(y) == t);
      ok("constant", P.p->IsParameterBlockConstant(y) == (m[q].constant || t == 0));
      for (int c = 0; c < n; ++c) { ok("upper bound", P.p->GetParameterUpperBound(y, c) == m[q].hi[c]); ok("lower bound", P.p->GetParameterLowerBound(y, c) == m[q].lo[c]); }
    }
  }
  int np = 0;
  for (auto& b : P.b) np += b.size();
  ok("counts", P.p->NumParameterBlocks() == int(P.b.size()) && P.p->NumParameters() == np && P.p->NumResidualBlocks() == int(P.t.size()));
}
struct Watch : IterationCallback {
  std::function<void(const IterationSummary&)> f;
  CallbackReturnType operator()(const IterationSummary& s) override { f(s); return SOLVER_CONTINUE; }
};
// every iterate respects bounds, constants and manifolds
static void solve() {
  Spec s;
  s.blocks = rac::integer(1, 5); s.terms = rac::integer(1, 8); s.constant = 0.25; s.manifold = 0.4; s.eps = 0.3; s.loss = 0.3;
  Prob P(s);
  if (rac::coin(0.8)) P.priors(0.3);
  for (auto& b : P.b) {
    int n = b.size();
    b.lo.assign(n, -BIG); b.hi.assign(n, BIG);
    if ((b.kind == 0 || b.kind == 3 || b.kind == 4) && rac::coin(0.6)) for (int i = 0; i < n; ++i) {
      if (rac::coin(0.5)) b.lo[i] = b.x[i] - (rac::coin(0.3) ? 0 : rac::unit());
      if (rac::coin(0.5)) b.hi[i] = b.x[i] + (rac::coin(0.3) ? 1e-3 : rac::unit());
      if (b.lo[i] != -BIG) P.p->SetParameterLowerBound(b.x.data(), i, b.lo[i]);
      if (b.hi[i] != BIG) P.p->SetParameterUpperBound(b.x.data(), i, b.hi[i]);
    }
  }
  std::vector<std::vector<double>> start;
  for (auto& b : P.b) start.push_back(b.x);
  Solver::Options o;
  o.logging_type = SILENT;
  o.max_num_iterations = rac::integer(0, 15);
  bool bounded = false;
  for (auto& b : P.b) if (!b.constant) for (int i = 0; i < b.size(); ++i) bounded |= b.lo[i] != -BIG || b.hi[i] != BIG;
  if (!bounded && rac::coin(0.3)) o.minimizer_type = LINE_SEARCH;
  if (!bounded && rac::coin(0.3)) o.trust_region_strategy_type = DOGLEG;
  o.use_nonmonotonic_steps = rac::coin(0.3);
  o.use_inner_iterations = o.minimizer_type == TRUST_REGION && rac::coin(0.3);
  LinearSolverType ls[] = {DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, ITERATIVE_SCHUR, CGNR};
  o.linear_solver_type = o.trust_region_strategy_type == DOGLEG ? ls[rac::integer(0, 3)] : ls[rac::integer(0, 5)];
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  rac::note("minimizer", o.minimizer_type); rac::note("solver", o.linear_solver_type); rac::note("strategy", o.trust_region_strategy_type); rac::note("inner", o.use_inner_iterations);
  auto look = [&](bool final) {
    for (size_t j = 0; j < P.b.size(); ++j) {
      auto& b = P.b[j];
      if (b.constant || b.tangent() == 0) { ok("constant blocks keep their value", b.x == start[j]); continue; }
      for (int i = 0; i < b.size(); ++i) ok("bounds hold", b.x[i] >= b.lo[i] && b.x[i] <= b.hi[i]);
      if (b.kind == 3) {
        std::vector<double> pj(b.size() * b.tangent());
        b.man->PlusJacobian(b.x.data(), pj.data());
        for (int i = 0; i < b.size(); ++i) { bool fixed = true; for (int k = 0; k < b.tangent(); ++k) fixed &= pj[i * b.tangent() + k] == 0; if (fixed) ok("constant coordinates keep their value", b.x[i] == start[j][i]); }
      }
      if (b.kind == 1 || b.kind == 2) { double q = 0; for (double v : b.x) q += v * v; close("stays on the sphere", q, 1, 1e-10); }
    }
  };
  Watch w;
  w.f = [&](const IterationSummary&) { look(false); };
  o.callbacks.push_back(&w);
  o.update_state_every_iteration = rac::coin(0.8);
  Solver::Summary sum;
  Solve(o, P.p.get(), &sum);
  look(true);
  ok("usable or a documented failure", sum.termination_type == CONVERGENCE || sum.termination_type == NO_CONVERGENCE || sum.termination_type == FAILURE);
  if (sum.termination_type != FAILURE) ok("no cost increase", P.cost() <= sum.initial_cost * (1 + 1e-9) + 1e-12);
}
// empty bounds or an infeasible constant block is an error and changes nothing; an infeasible start of a variable block is projected
static void infeasible() {
  Spec s;
  s.blocks = rac::integer(1, 4); s.terms = rac::integer(1, 4); s.constant = 0.3; s.manifold = 0;
  Prob P(s);
  P.priors(0.3);
  int j = rac::integer(0, int(P.b.size()) - 1);
  Block& b = P.b[j];
  int i = rac::integer(0, b.size() - 1), how = rac::integer(0, 2);
  double d = 1e-6 + rac::unit();
  rac::note("how", how); rac::note("constant", b.constant); rac::note("d", d);
  if (how == 0) P.p->SetParameterLowerBound(b.x.data(), i, b.x[i] + d);
  if (how == 1) P.p->SetParameterUpperBound(b.x.data(), i, b.x[i] - d);
  if (how == 2) { P.p->SetParameterLowerBound(b.x.data(), i, b.x[i] + d); P.p->SetParameterUpperBound(b.x.data(), i, b.x[i] + d - 2e-6 * d); }
  std::vector<std::vector<double>> start;
  for (auto& q : P.b) start.push_back(q.x);
  Solver::Options o;
  o.logging_type = SILENT;
  o.linear_solver_type = DENSE_QR;
  Solver::Summary sum;
  Solve(o, P.p.get(), &sum);
  if (how < 2 && !b.constant) {
    ok("solves", sum.termination_type != FAILURE);
    ok("an infeasible start is projected", how == 0 ? b.x[i] >= start[j][i] + d : b.x[i] <= start[j][i] - d);
    return;
  }
  ok("infeasible problems are refused", sum.termination_type == FAILURE);
  for (size_t q = 0; q < P.b.size(); ++q) ok("nothing changes", P.b[q].x == start[q]);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Problem parameter block interface", 1500, api);
  rac::group("Solve keeps bounds, constants and manifolds", 1500, solve);
  rac::group("infeasible problems", 200, infeasible);
  return rac::finish();
}
