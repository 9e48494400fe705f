// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include "nls.h"
RAC_MAIN_SUPPORT
using namespace nls;
using rac::close; using rac::ok;
static void one(bool fast) {
  Spec s;
  s.blocks = rac::integer(1, 6); s.terms = rac::integer(1, 10); s.wide = 0.15;
  rac::note("blocks", s.blocks); rac::note("terms", s.terms);
  Problem::Options po;
  po.enable_fast_removal = fast;
  Prob P(s, po);
  Problem::EvaluateOptions o;
  o.apply_loss_function = rac::coin(0.7);
  o.num_threads = rac::coin(0.3) ? rac::integer(2, 4) : 1;
  std::vector<int> blocks = all(P.b.size()), terms = all(P.t.size());
  if (rac::coin()) { auto k = subset(P.b.size(), 0.7); if (!k.empty()) { blocks = k; for (int j : k) o.parameter_blocks.push_back(P.b[j].x.data()); } }
  if (rac::coin()) { auto k = subset(P.t.size(), 0.7); if (!k.empty()) { terms = k; for (int j : k) o.residual_blocks.push_back(P.t[j].id); } }
  rac::note("apply", o.apply_loss_function); rac::note("threads", o.num_threads); rac::note("used", double(blocks.size())); rac::note("used terms", double(terms.size()));
  for (int round = 0; round < 2; ++round) {
    if (round) for (auto& b : P.b) if (b.kind == 0 || b.kind == 3) for (auto& v : b.x) v += 0.3 * rac::gauss();   // the evaluation follows the user's values
    Eval w = reference(P, blocks, terms, o.apply_loss_function);
    std::vector<std::vector<double>> keep;
    for (auto& b : P.b) keep.push_back(b.x);
    double cost = 0; std::vector<double> r, g; CRSMatrix J;
    int mask = rac::integer(1, 15);
    rac::note("mask", mask);
    ok("evaluates", P.p->Evaluate(o, mask & 1 ? &cost : nullptr, mask & 2 ? &r : nullptr, mask & 4 ? &g : nullptr, mask & 8 ? &J : nullptr));
    if (mask & 1) close("cost", cost, w.cost, 1e-10);
    if (mask & 2) close_m("residuals", Eigen::Map<DV>(r.data(), r.size()), w.r, 1e-9);
    if (mask & 4) close_m("gradient", Eigen::Map<DV>(g.data(), g.size()), w.g, 1e-9);
    if (mask & 8) {
      close_m("Jacobian", dense(J), w.J, 1e-9);
      ok("structure", int(J.rows.size()) == J.num_rows + 1 && J.rows[0] == 0 && J.rows.back() == int(J.cols.size()) && J.cols.size() == J.values.size());
      for (int i = 0; i < J.num_rows; ++i) for (int k = J.rows[i] + 1; k < J.rows[i + 1]; ++k) ok("columns are distinct and sorted within rows of one block order", J.cols[k] != J.cols[k - 1]);
    }
    for (size_t j = 0; j < P.b.size(); ++j) { ok("parameters are left alone", P.b[j].x == keep[j]); ok("constancy is restored", P.p->IsParameterBlockConstant(P.b[j].x.data()) == (P.b[j].constant || P.b[j].tangent() == 0)); }
  }
  // failures and invalid numbers
  int bad = terms[rac::integer(0, int(terms.size()) - 1)], k = rac::integer(0, 3);
  Fn* f = P.t[bad].f;
  rac::note("bad", bad); rac::note("how", k);
  int row = rac::integer(0, f->num_residuals() - 1);
  if (k == 0) f->fail = true;
  if (k == 1) f->nan_residual = row;
  if (k == 2) f->unwritten = row;
  if (k == 3) f->nan_jacobian = row;
  bool differentiated = false;
  for (int j : P.t[bad].blocks) differentiated |= !P.b[j].constant && P.b[j].tangent() > 0 && std::find(blocks.begin(), blocks.end(), j) != blocks.end();
  double cost = 777;
  if (k < 3) ok("a failed or invalid residual fails the evaluation", !P.p->Evaluate(o, &cost, nullptr, nullptr, nullptr));
  else { std::vector<double> g; ok("an invalid Jacobian fails the evaluation when it is used", P.p->Evaluate(o, &cost, nullptr, &g, nullptr) == !differentiated); }
  for (auto& b : P.b) ok("constancy is restored after a failure", P.p->IsParameterBlockConstant(b.x.data()) == (b.constant || b.tangent() == 0));
  f->fail = false; f->nan_residual = f->unwritten = f->nan_jacobian = -1;
  Eval w = reference(P, blocks, terms, o.apply_loss_function);
  ok("evaluates again", P.p->Evaluate(o, &cost, nullptr, nullptr, nullptr));
  close("cost after a failure", cost, w.cost, 1e-10);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("Problem::Evaluate", 1500, [] { one(rac::coin()); });
  rac::group("EvaluateResidualBlock", 1500, [] {
    Spec s;
    s.blocks = rac::integer(1, 4); s.terms = 1; s.loss = 0.6;
    Prob P(s);
    const Term& m = P.t[0];
    bool robust = rac::coin(0.7);
    Eval w = reference(P, m.blocks, {0}, robust);
    int nr = m.f->num_residuals();
    std::vector<std::vector<double>> J; std::vector<double*> pj; std::vector<double> r(nr + 1, 777);
    int constant = -1;
    for (size_t k = 0; k < m.blocks.size(); ++k) {
      const Block& b = P.b[m.blocks[k]];
      bool fixed = b.constant || b.tangent() == 0;
      J.push_back(std::vector<double>(nr * b.tangent() + 1, 777));
      bool want = !fixed && rac::coin(0.7);
      pj.push_back(want ? J.back().data() : nullptr);
      if (fixed) constant = int(k);
    }
    double cost = 777;
    bool wr = rac::coin(0.7), wj = rac::coin(0.8), wc = rac::coin(0.8);
    ok("evaluates", P.p->EvaluateResidualBlock(m.id, robust, wc ? &cost : nullptr, wr ? r.data() : nullptr, wj ? pj.data() : nullptr));
    if (wc) close("cost", cost, w.cost, 1e-10);
    if (wr) for (int i = 0; i < nr; ++i) close("residual", r[i], w.r(i), 1e-9);
    ok("nothing past the residuals", r[nr] == 777);
    int o = 0;
    for (size_t k = 0; k < m.blocks.size(); ++k) {
      int n = P.b[m.blocks[k]].tangent();
      for (int i = 0; i < nr; ++i) for (int j = 0; j < n; ++j) if (wj && pj[k]) close("Jacobian", J[k][i * n + j], w.J(i, o + j), 1e-9); else ok("not written", J[k][i * n + j] == 777);
      ok("nothing past the Jacobian", J[k][nr * n] == 777);
      o += n;
    }
    if (constant >= 0) { pj[constant] = J[constant].data(); ok("a Jacobian of a constant block is refused", !P.p->EvaluateResidualBlock(m.id, robust, &cost, r.data(), pj.data())); }
  });
  return rac::finish();
}
