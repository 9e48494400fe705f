// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
// Problems as a set of blocks: every edit against a plain model; orders as permutations; ownership counted.
#include <list>
#include <map>
#include <set>
#include "nls.h"
#include "ceres/ordered_groups.h"
#include "ceres/graph_algorithms.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "ceres/triplet_sparse_matrix.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using namespace ceres::internal;
using rac::ok; using rac::close; using rac::integer; using rac::coin;
static std::map<void*, int> alive, killed;
template <class T> static T* born(T* p) { alive[p] = 1; killed[p] = 0; return p; }
struct Cost : CostFunction {
  std::vector<double> c;
  Cost(int nr, const std::vector<int>& s) { set_num_residuals(nr); *mutable_parameter_block_sizes() = s; for (int i = 0; i < nr; ++i) c.push_back(rac::tame()); }
  static void operator delete(void*) {}   // addresses are not reused
  ~Cost() override { ++killed[this]; alive[this] = 0; }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    for (int i = 0; i < num_residuals(); ++i) { r[i] = c[i]; for (size_t b = 0; b < parameter_block_sizes().size(); ++b) for (int j = 0; j < parameter_block_sizes()[b]; ++j) r[i] += p[b][j] * (1 + i + 2 * j + 3 * b) * 0.1; }
    if (J) for (size_t b = 0; b < parameter_block_sizes().size(); ++b) if (J[b]) for (int i = 0; i < num_residuals(); ++i) for (int j = 0; j < parameter_block_sizes()[b]; ++j) J[b][i * parameter_block_sizes()[b] + j] = (1 + i + 2 * j + 3 * b) * 0.1;
    return true;
  }
};
struct Loss : LossFunction { double a = 0.5 + rac::unit(); void Evaluate(double s, double* r) const override { r[0] = a * s; r[1] = a; r[2] = 0; } static void operator delete(void*) {} ~Loss() override { ++killed[this]; alive[this] = 0; } };
struct Man : Manifold {
  SubsetManifold m;
  Man(int n, const std::vector<int>& k) : m(n, k) {}
  int AmbientSize() const override { return m.AmbientSize(); }
  int TangentSize() const override { return m.TangentSize(); }
  bool Plus(const double* a, const double* b, double* c) const override { return m.Plus(a, b, c); }
  bool PlusJacobian(const double* a, double* b) const override { return m.PlusJacobian(a, b); }
  bool Minus(const double* a, const double* b, double* c) const override { return m.Minus(a, b, c); }
  bool MinusJacobian(const double* a, double* b) const override { return m.MinusJacobian(a, b); }
  static void operator delete(void*) {}
  ~Man() override { ++killed[this]; alive[this] = 0; } };
struct MB { std::vector<double>* x; bool in = false, constant = false; Manifold* man = nullptr; std::vector<double> lo, hi; int n() const { return int(x->size()); } int t() const { return man ? man->TangentSize() : n(); } };
struct MR { ResidualBlockId id; std::vector<int> b; Cost* cost; Loss* loss; };
struct Model {
  std::vector<std::vector<double>> store;
  std::vector<MB> b;
  std::list<MR> r;
  std::set<Cost*> costs; std::set<Loss*> losses; std::set<Man*> mans;
  std::set<Cost*> ever_c; std::set<Loss*> ever_l; std::set<Man*> ever_m;     // used by this problem at some time
  bool fast, own_c, own_l, own_m;
  std::unique_ptr<Problem> p;
};
static void start(Model& m) {
  m.store.resize(integer(2, 7));
  for (auto& s : m.store) { s.resize(integer(1, 3)); for (auto& v : s) v = rac::tame(); }
  for (auto& s : m.store) { MB b; b.x = &s; m.b.push_back(b); }
  m.fast = coin(); m.own_c = coin(); m.own_l = coin(); m.own_m = coin();
  Problem::Options o;
  o.enable_fast_removal = m.fast;
  o.disable_all_safety_checks = coin(0.2);
  if (!m.own_c) o.cost_function_ownership = DO_NOT_TAKE_OWNERSHIP;
  if (!m.own_l) o.loss_function_ownership = DO_NOT_TAKE_OWNERSHIP;
  if (!m.own_m) o.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
  rac::note("fast", m.fast); rac::note("own cost", m.own_c); rac::note("own loss", m.own_l);
  m.p = std::make_unique<Problem>(o);
}
static void fresh(Model& m, MB& b) { b.lo.assign(b.n(), -std::numeric_limits<double>::max()); b.hi.assign(b.n(), std::numeric_limits<double>::max()); b.constant = false; b.man = nullptr; b.in = true; }
static Man* manifold(Model& m, int n) {
  if (coin(0.3)) for (auto* q : m.mans) if (q->AmbientSize() == n && alive[q]) return q;
  std::vector<int> k;
  for (int i = 0; i < n; ++i) if (coin(0.4)) k.push_back(i);
  Man* q = born(new Man(n, k));
  m.mans.insert(q); m.ever_m.insert(q);
  return q;
}
static std::vector<int> in(Model& m) { std::vector<int> v; for (size_t i = 0; i < m.b.size(); ++i) if (m.b[i].in) v.push_back(int(i)); return v; }
static void step(Model& m) {
  int op = integer(0, 11);
  rac::note("op", op);
  Problem& p = *m.p;
  MB& b = m.b[integer(0, int(m.b.size()) - 1)];
  double* x = b.x->data();
  rac::note("on", double(&b - m.b.data()));
  switch (op) {
    case 0: p.AddParameterBlock(x, b.n()); if (!b.in) fresh(m, b); break;        // again: nothing changes
    case 1: if (!b.in) { Man* q = coin(0.7) ? manifold(m, b.n()) : nullptr; p.AddParameterBlock(x, b.n(), q); fresh(m, b); b.man = q; } break;
    case 2: case 3: case 4: {
      std::vector<int> k, s; std::vector<double*> v;
      for (size_t i = 0; i < m.b.size(); ++i) if (coin(0.4)) k.push_back(int(i));
      if (k.empty()) k.push_back(integer(0, int(m.b.size()) - 1));
      for (size_t i = k.size() - 1; i > 0; --i) std::swap(k[i], k[integer(0, int(i))]);
      for (int i : k) { s.push_back(m.b[i].n()); v.push_back(m.b[i].x->data()); if (!m.b[i].in) fresh(m, m.b[i]); }
      Cost* c = nullptr;
      if (coin(0.4)) for (auto* q : m.costs) if (alive[q] && q->parameter_block_sizes() == s) c = q;
      if (!c) { c = born(new Cost(integer(1, 3), s)); m.costs.insert(c); }
      Loss* l = nullptr;
      if (coin(0.6)) { if (coin(0.5)) for (auto* q : m.losses) if (alive[q]) l = q; if (!l) { l = born(new Loss()); m.losses.insert(l); } }
      m.ever_c.insert(c); if (l) m.ever_l.insert(l);
      auto id = p.AddResidualBlock(c, l, v);
      m.r.push_back({id, k, c, l});
      break;
    }
    case 5: case 6: if (!m.r.empty()) {
      auto it = m.r.begin();
      std::advance(it, integer(0, int(m.r.size()) - 1));
      p.RemoveResidualBlock(it->id);
      m.r.erase(it);
    } break;
    case 7: if (b.in) {
      p.RemoveParameterBlock(x);
      int i = int(&b - m.b.data());
      m.r.remove_if([&](const MR& r) { return std::count(r.b.begin(), r.b.end(), i) > 0; });
      b.in = false; b.man = nullptr;
    } break;
    case 8: if (b.in) { if (coin()) { p.SetParameterBlockConstant(x); b.constant = true; } else { p.SetParameterBlockVariable(x); b.constant = false; } } break;
    case 9: if (b.in) { b.man = coin(0.7) ? manifold(m, b.n()) : nullptr; p.SetManifold(x, b.man); } break;
    case 10: if (b.in) { int i = integer(0, b.n() - 1); double v = rac::tame() - 3; p.SetParameterLowerBound(x, i, v); b.lo[i] = v; } break;
    case 11: if (b.in) { int i = integer(0, b.n() - 1); double v = rac::tame() + 3; p.SetParameterUpperBound(x, i, v); b.hi[i] = v; } break;
  }
}
static void compare(Model& m) {
  Problem& p = *m.p;
  auto k = in(m);
  int np = 0, nr = 0;
  std::set<double*> want;
  std::set<ResidualBlockId> rw;
  for (int i : k) { np += m.b[i].n(); want.insert(m.b[i].x->data()); }
  for (auto& r : m.r) { nr += r.cost->num_residuals(); rw.insert(r.id); }
  ok("number of parameter blocks", p.NumParameterBlocks() == int(k.size()));
  ok("number of parameters", p.NumParameters() == np);
  ok("number of residual blocks", p.NumResidualBlocks() == int(m.r.size()));
  ok("number of residuals", p.NumResiduals() == nr);
  std::vector<double*> gp; std::vector<ResidualBlockId> gr;
  p.GetParameterBlocks(&gp); p.GetResidualBlocks(&gr);
  ok("the parameter blocks", gp.size() == want.size() && std::set<double*>(gp.begin(), gp.end()) == want);
  ok("the residual blocks", gr.size() == rw.size() && std::set<ResidualBlockId>(gr.begin(), gr.end()) == rw);
  for (size_t i = 0; i < m.b.size(); ++i) {
    MB& b = m.b[i]; double* x = b.x->data();
    ok("membership", p.HasParameterBlock(x) == b.in);
    if (!b.in) continue;
    ok("size", p.ParameterBlockSize(x) == b.n());
    ok("tangent size", p.ParameterBlockTangentSize(x) == b.t());
    ok("manifold", p.GetManifold(x) == b.man && p.HasManifold(x) == (b.man != nullptr));
    ok("constancy", p.IsParameterBlockConstant(x) == (b.constant || b.t() == 0));
    for (int j = 0; j < b.n(); ++j) { ok("lower bound", p.GetParameterLowerBound(x, j) == b.lo[j]); ok("upper bound", p.GetParameterUpperBound(x, j) == b.hi[j]); }
    std::vector<ResidualBlockId> g; std::set<ResidualBlockId> w;
    p.GetResidualBlocksForParameterBlock(x, &g);
    for (auto& r : m.r) if (std::count(r.b.begin(), r.b.end(), int(i))) w.insert(r.id);
    ok("residual blocks of a parameter block", g.size() == w.size() && std::set<ResidualBlockId>(g.begin(), g.end()) == w);
  }
  for (auto& r : m.r) {
    std::vector<double*> g;
    p.GetParameterBlocksForResidualBlock(r.id, &g);
    bool same = g.size() == r.b.size();
    for (size_t i = 0; same && i < g.size(); ++i) same = g[i] == m.b[r.b[i]].x->data();
    ok("parameter blocks of a residual block, in order", same);
    ok("cost function of a residual block", p.GetCostFunctionForResidualBlock(r.id) == r.cost);
    ok("loss function of a residual block", p.GetLossFunctionForResidualBlock(r.id) == r.loss);
  }
  std::set<Cost*> usedc; std::set<Loss*> usedl; std::set<Manifold*> usedm;
  for (auto& r : m.r) { usedc.insert(r.cost); usedl.insert(r.loss); }
  for (int i : k) usedm.insert(m.b[i].man);
  for (auto* c : m.costs) { ok("a cost function in use is alive", !usedc.count(c) || alive[c]); ok("deleted at most once", killed[c] <= 1); ok("not deleted when not owned", m.own_c || alive[c]); if (m.fast && m.own_c) ok("an owned cost function goes with its last use", alive[c] == int(usedc.count(c))); }
  for (auto* c : m.losses) { ok("a loss in use is alive", !usedl.count(c) || alive[c]); ok("deleted at most once", killed[c] <= 1); ok("not deleted when not owned", m.own_l || alive[c]); if (m.fast && m.own_l) ok("an owned loss goes with its last use", alive[c] == int(usedl.count(c))); }
  for (auto* c : m.mans) { ok("a manifold in use is alive", !usedm.count(c) || alive[c]); ok("deleted at most once", killed[c] <= 1); ok("not deleted when not owned", m.own_m || alive[c]); }
  // the program behind the problem
  auto* impl = p.mutable_impl();
  const Program& g = impl->program();
  for (int i = 0; i < int(g.parameter_blocks().size()); ++i) ok("parameter block index", g.parameter_blocks()[i]->index() == i);
  for (int i = 0; i < int(g.residual_blocks().size()); ++i) ok("residual block index", g.residual_blocks()[i]->index() == i);
}
static void value(Model& m) {
  Problem& p = *m.p;
  double w = 0;
  for (auto& r : m.r) {
    std::vector<double*> v; for (int i : r.b) v.push_back(m.b[i].x->data());
    std::vector<double> e(r.cost->num_residuals());
    r.cost->Evaluate(v.data(), e.data(), nullptr);
    double s = 0; for (double z : e) s += z * z;
    w += 0.5 * (r.loss ? r.loss->a * s : s);
  }
  double c = 0;
  if (m.r.empty()) return;
  ok("evaluates", p.Evaluate(Problem::EvaluateOptions(), &c, nullptr, nullptr, nullptr));
  close("cost of the blocks that are there", c, w, 1e-10);
}
static void finish(Model& m) {
  m.p.reset();
  for (auto* c : m.ever_c) { ok("cost functions: deleted exactly when owned", killed[c] == int(m.own_c)); if (!m.own_c) delete c; }
  for (auto* c : m.ever_l) { ok("losses: deleted exactly when owned", killed[c] == int(m.own_l)); if (!m.own_l) delete c; }
  for (auto* c : m.ever_m) { if (!m.own_m) { ok("manifolds: not deleted when not owned", killed[c] == 0); delete c; } }
}
static bool build(Model& m, int n) {
  start(m);
  for (int i = 0; i < n; ++i) step(m);
  return true;
}
static void orders() {
  Model m;
  build(m, integer(4, 30));
  Problem& p = *m.p;
  std::vector<double*> removed; double fixed; std::string e;
  auto g = p.mutable_impl()->program().CreateReducedProgram(&removed, &fixed, &e);
  ok("reduces", g != nullptr, e);
  if (!g || g->NumParameterBlocks() == 0) { finish(m); return; }
  std::vector<ParameterBlock*> vb = g->parameter_blocks();
  std::set<ParameterBlock*> vars(vb.begin(), vb.end());
  auto adjacent = [&](ParameterBlock* a, ParameterBlock* b) {
    for (auto* r : g->residual_blocks()) { bool f = false, h = false; for (int i = 0; i < r->NumParameterBlocks(); ++i) { f |= r->parameter_blocks()[i] == a; h |= r->parameter_blocks()[i] == b; } if (f && h) return true; }
    return false;
  };
  // the graph of the Hessian
  auto graph = CreateHessianGraph(*g);
  ok("vertices", graph->vertices().size() == vars.size());
  for (auto* a : vb) for (auto* b : vb) if (a != b) ok("an edge exactly when two blocks share a residual block", bool(graph->Neighbors(a).count(b)) == adjacent(a, b));
  for (int stable = 0; stable < 2; ++stable) {
    std::vector<ParameterBlock*> o;
    int n = stable ? ComputeStableSchurOrdering(*g, &o) : ComputeSchurOrdering(*g, &o);
    ok("a permutation of the blocks", o.size() == vb.size() && std::set<ParameterBlock*>(o.begin(), o.end()) == vars);
    ok("at least one block is eliminated", n >= 1 && n <= int(o.size()));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) ok("eliminated blocks are independent", !adjacent(o[i], o[j]));
    for (size_t i = n; i < o.size(); ++i) { bool a = false; for (int j = 0; j < n; ++j) a |= adjacent(o[i], o[j]); ok("the independent set is maximal", a); }
  }
  ParameterBlockOrdering rec;
  ComputeRecursiveIndependentSetOrdering(*g, &rec);
  ok("every block in a group", rec.NumElements() == int(vb.size()));
  for (auto& [k, s] : rec.group_to_elements()) for (auto* x : s) for (auto* y : s) if (x != y) {
    ParameterBlock *a = nullptr, *b = nullptr;
    for (auto* q : vb) { if (q->user_state() == x) a = q; if (q->user_state() == y) b = q; }
    ok("the groups are independent sets", a && b && !adjacent(a, b));
  }
  std::vector<int> sizes;
  OrderingToGroupSizes(&rec, &sizes);
  size_t at = 0;
  for (auto& [k, s] : rec.group_to_elements()) { ok("group sizes", at < sizes.size() && sizes[at] == int(s.size())); ++at; }
  ok("number of groups", at == sizes.size());
  // user orders
  ParameterBlockOrdering user;
  bool single = coin(0.3);
  for (auto* q : vb) user.AddElementToGroup(q->mutable_user_state(), single ? 3 : integer(0, 3));
  const auto first = user.group_to_elements().begin()->second;
  bool indep = true;
  for (auto* a : vb) for (auto* b : vb) if (a != b && first.count(a->mutable_user_state()) && first.count(b->mutable_user_state()) && adjacent(a, b)) indep = false;
  std::vector<ResidualBlock*> rb = g->residual_blocks();
  auto perm = [&](const char* what) {
    ok(what, g->parameter_blocks().size() == vb.size() && std::set<ParameterBlock*>(g->parameter_blocks().begin(), g->parameter_blocks().end()) == vars);
    ok(what, g->residual_blocks().size() == rb.size() && std::set<ResidualBlock*>(g->residual_blocks().begin(), g->residual_blocks().end()) == std::set<ResidualBlock*>(rb.begin(), rb.end()));
    int o = 0, d = 0, i = 0;
    for (auto* q : g->parameter_blocks()) { ok("offsets follow the order", q->index() == i++ && q->state_offset() == o && q->delta_offset() == d); o += q->Size(); d += q->TangentSize(); }
  };
  int how = integer(0, 3);
  rac::note("how", how);
  if (how == 0) {
    int s = integer(0, int(rb.size()));
    bool good = ReorderProgramForSparseCholesky(EIGEN_SPARSE, coin() ? AMD : NESDIS, user, rb.empty() ? 0 : std::min(s, int(rb.size()) - 1), g.get(), &e);
    ok("reorders", good, e);
    perm("a fill reducing order is a permutation");
    for (size_t i = 0; i < rb.size(); ++i) ok("residual blocks stay", g->residual_blocks()[i] == rb[i]);
  } else if (how == 1) {
    bool good = ApplyOrdering(p.mutable_impl()->parameter_map(), user, g.get(), &e);
    ok("applies", good, e);
    g->SetParameterOffsetsAndIndex();
    perm("an applied order is a permutation");
    for (size_t i = 1; i < vb.size(); ++i) ok("groups in order", user.GroupId(g->parameter_blocks()[i - 1]->mutable_user_state()) <= user.GroupId(g->parameter_blocks()[i]->mutable_user_state()));
  } else if (how == 2) {
    auto t = coin() ? SPARSE_SCHUR : DENSE_SCHUR;
    ParameterBlockOrdering u2 = user;
    bool good = ReorderProgramForSchurTypeLinearSolver(t, EIGEN_SPARSE, coin() ? AMD : NESDIS, p.mutable_impl()->parameter_map(), &u2, g.get(), &e);
    bool accept = user.NumGroups() == 1 || indep;
    ok("accepted exactly when the first group is independent", good == accept, e);
    if (good) {
      perm("a Schur order is a permutation");
      int ne = u2.GroupSize(u2.MinNonZeroGroup());
      for (int i = 0; i < ne; ++i) ok("eliminated blocks first", u2.GroupId(g->parameter_blocks()[i]->mutable_user_state()) == u2.MinNonZeroGroup());
      int last = 0;
      for (auto* r : g->residual_blocks()) {
        int k = ne, cnt = 0;
        for (int i = 0; i < r->NumParameterBlocks(); ++i) { auto* q = r->parameter_blocks()[i]; if (!q->IsConstant() && q->index() < ne) { k = std::min(k, q->index()); ++cnt; } }
        ok("one eliminated block per residual block", cnt <= 1);
        ok("residual blocks are grouped by eliminated block", k >= last);
        last = k;
      }
    }
  } else {
    std::unordered_set<ResidualBlockId> bottom;
    for (auto* r : rb) if (coin(0.4)) bottom.insert(r);
    int n = ReorderResidualBlocksByPartition(bottom, g.get());
    perm("a partition is a permutation");
    ok("size of the top", n == int(rb.size() - bottom.size()));
    for (int i = 0; i < int(rb.size()); ++i) ok("top before bottom", (i < n) == !bottom.count(g->residual_blocks()[i]));
  }
  finish(m);
}
static void groups() {
  OrderedGroups<int> g;
  std::map<int, int> w;
  int n = integer(1, 30);
  for (int s = 0; s < n; ++s) {
    int x = integer(0, 6), k = integer(-1, 4);
    switch (integer(0, 6)) {
      case 0: case 1: case 2: ok("adds", g.AddElementToGroup(x, k) == (k >= 0)); if (k >= 0) w[x] = k; break;
      case 3: ok("removes", g.Remove(x) == (w.erase(x) > 0)); break;
      case 4: { std::vector<int> v; int c = 0; for (int i = 0; i < 3; ++i) { v.push_back(integer(0, 6)); c += int(w.erase(v.back())); } ok("removes several", g.Remove(v) == c); } break;
      case 5: if (coin(0.2)) { g.Clear(); w.clear(); } break;
      case 6: {
        auto before = w;
        g.Reverse();
        w.clear();
        for (auto& [e, q] : before) { w[e] = g.GroupId(e); for (auto& [f, r] : before) ok("reversed", (q < r) == (g.GroupId(e) > g.GroupId(f)) && (q == r) == (g.GroupId(e) == g.GroupId(f))); }
      } break;
    }
    std::map<int, std::set<int>> inv;
    for (auto& [e, q] : w) inv[q].insert(e);
    ok("elements", g.NumElements() == int(w.size()));
    ok("groups", g.NumGroups() == int(inv.size()));
    ok("group to elements", g.group_to_elements() == inv);
    if (!inv.empty()) ok("first group", g.MinNonZeroGroup() == inv.begin()->first);
    for (int e = 0; e <= 6; ++e) { ok("member", g.IsMember(e) == (w.count(e) > 0)); ok("group of an element", g.GroupId(e) == (w.count(e) ? w[e] : -1)); }
    for (int q = 0; q <= 12; ++q) ok("group size", g.GroupSize(q) == (inv.count(q) ? int(inv[q].size()) : 0));
  }
}
static void forests() {
  WeightedGraph<int> g;
  int n = integer(1, 9);
  std::map<std::pair<int, int>, double> e;
  for (int i = 0; i < n; ++i) g.AddVertex(i, 1.0);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (coin(0.5)) { double w = coin(0.3) ? integer(1, 3) : rac::unit(); g.AddEdge(i, j, w); e[{j, i}] = w; }
  if (coin(0.3)) { int v = integer(0, n - 1); g.RemoveVertex(v); for (auto q = e.begin(); q != e.end();) if (q->first.first == v || q->first.second == v) q = e.erase(q); else ++q; ok("a removed vertex has no edges", !g.vertices().count(v)); }
  for (int i : g.vertices()) for (int j : g.vertices()) if (i < j) { ok("edges", bool(g.Neighbors(i).count(j)) == (e.count({i, j}) > 0)); if (e.count({i, j})) ok("weight", g.EdgeWeight(i, j) == e[{i, j}] && g.EdgeWeight(j, i) == e[{i, j}]); }
  auto f = Degree2MaximumSpanningForest(g);
  ok("a forest of all vertices", f->vertices() == g.vertices());
  std::map<int, int> up, deg;
  std::function<int(int)> find = [&](int x) { return up.count(x) && up[x] != x ? find(up[x]) : x; };
  std::vector<std::pair<double, std::pair<int, int>>> fe;
  for (int i : f->vertices()) for (int j : f->Neighbors(i)) if (i < j) { ok("an edge of the graph", e.count({i, j}) > 0); int a = find(i), b = find(j); ok("no cycle", a != b); up[a] = b; ++deg[i]; ++deg[j]; }
  for (auto& d : deg) ok("degree at most two", d.second <= 2);
  for (auto& [q, w] : e) if (!f->Neighbors(q.first).count(q.second)) ok("no edge can be added", deg[q.first] >= 2 || deg[q.second] >= 2 || find(q.first) == find(q.second));
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("edits of a problem", 300, [] {
    Model m;
    start(m);
    int n = integer(1, 40);
    for (int i = 0; i < n; ++i) { step(m); compare(m); if (rac::S().failed_case) break; }
    value(m);
    finish(m);
  });
  rac::group("orders", 500, [] { orders(); });
  rac::group("ordered groups", 500, [] { groups(); });
  rac::group("graphs", 500, [] { forests(); });
  return rac::finish();
}
