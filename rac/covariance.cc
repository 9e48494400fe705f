// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
// Covariance estimates against the (pseudo) inverse of the dense J'J of a reference evaluator.
#include "nls.h"
#include "ceres/covariance.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using namespace nls;
using rac::ok; using rac::close; using rac::integer; using rac::coin;
using RM = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;
namespace {
struct Ref { std::vector<int> active, col; Eval e; };
bool in_use(const Prob& P, int j) { for (auto& m : P.t) for (int k : m.blocks) if (k == j) return true; return false; }
// an active block: used by a residual and not constant
Ref of(const Prob& P, bool robust) {
  Ref r;
  r.col.assign(P.b.size(), -1);
  int n = 0;
  for (int j = 0; j < int(P.b.size()); ++j) if (in_use(P, j) && !P.b[j].constant && P.b[j].tangent() > 0) { r.active.push_back(j); r.col[j] = n; n += P.b[j].tangent(); }
  r.e = reference(P, r.active, all(P.t.size()), robust);
  return r;
}
DM lift(const Block& b) {
  if (!b.man) return DM::Identity(b.size(), b.size());
  RM j(b.size(), b.tangent());
  if (b.tangent() > 0) b.man->PlusJacobian(b.x.data(), j.data());
  return j;
}
DM want(const Prob& P, const Ref& r, const DM& C, int i, int j, bool ambient) {
  const Block &a = P.b[i], &b = P.b[j];
  if (r.col[i] < 0 || r.col[j] < 0) return ambient ? DM::Zero(a.size(), b.size()) : DM::Zero(a.tangent(), b.tangent());
  DM c = C.block(r.col[i], r.col[j], a.tangent(), b.tangent());
  return ambient ? DM(lift(a) * c * lift(b).transpose()) : c;
}
Prob problem(bool full) {
  Spec s;
  s.blocks = integer(1, 6); s.terms = integer(1, 7); s.constant = coin(0.3) ? 0.5 : 0.1;
  Prob P(s);
  if (full) P.priors(0.7 + rac::unit());
  rac::note("blocks", s.blocks); rac::note("terms", s.terms);
  return P;
}
Covariance::Options settings(bool dense) {
  Covariance::Options o;
  o.algorithm_type = dense ? DENSE_SVD : SPARSE_QR;
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.num_threads = integer(1, 4);
  o.apply_loss_function = coin(0.7);
  rac::note("dense", dense); rac::note("threads", o.num_threads); rac::note("loss", o.apply_loss_function);
  return o;
}
std::vector<double> values(const Prob& P) { std::vector<double> v; for (auto& b : P.b) v.insert(v.end(), b.x.begin(), b.x.end()); return v; }
using Pairs = std::vector<std::pair<const double*, const double*>>;
// requested pairs, each in a random orientation
std::vector<std::pair<int, int>> requests(const Prob& P, Pairs* q, double keep) {
  std::vector<std::pair<int, int>> v;
  for (int i = 0; i < int(P.b.size()); ++i) for (int j = i; j < int(P.b.size()); ++j) if (coin(keep)) v.push_back(coin() ? std::make_pair(i, j) : std::make_pair(j, i));
  for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[integer(0, int(k) - 1)]);
  for (auto& p : v) q->emplace_back(P.b[p.first].x.data(), P.b[p.second].x.data());
  return v;
}
bool asked(const std::vector<std::pair<int, int>>& v, int i, int j) { for (auto& p : v) if ((p.first == i && p.second == j) || (p.first == j && p.second == i)) return true; return false; }
void compare(const Prob& P, const Ref& r, const DM& C, const Covariance& cov, const std::vector<std::pair<int, int>>& v, double tol) {
  for (int i = 0; i < int(P.b.size()); ++i) for (int j = 0; j < int(P.b.size()); ++j) for (int ambient = 0; ambient < 2; ++ambient) {
    DM w = want(P, r, C, i, j, ambient);
    std::vector<double> out(w.size() + 4, 777.0);
    const double *a = P.b[i].x.data(), *b = P.b[j].x.data();
    bool got = ambient ? cov.GetCovarianceBlock(a, b, out.data()) : cov.GetCovarianceBlockInTangentSpace(a, b, out.data());
    bool there = asked(v, i, j) || r.col[i] < 0 || r.col[j] < 0;
    ok("a block is available exactly if it was asked for or is zero", got == there);
    for (int k = 0; k < 4; ++k) ok("nothing behind the block is written", out[w.size() + k] == 777.0);
    if (!got || !there) continue;
    double m = C.size() ? C.cwiseAbs().maxCoeff() : 1;
    for (int x = 0; x < w.rows(); ++x) for (int y = 0; y < w.cols(); ++y)
      close(ambient ? "an ambient block is the lifted block of the inverse" : "a tangent block is that of the inverse", out[x * w.cols() + y], w(x, y), tol, m * 4);
  }
}
double condition(const DM& J) { if (!J.size()) return 1; Eigen::JacobiSVD<DM> s(J); if (J.rows() < J.cols()) return 1e300; auto v = s.singularValues(); return v(v.size() - 1) > 0 ? v(0) / v(v.size() - 1) : 1e300; }
DM inverse(const DM& J) { return J.cols() ? DM((J.transpose() * J).fullPivLu().inverse()) : DM(0, 0); }

void blocks() {
  Covariance cov(settings(coin()));
  (void)cov;
  auto o = settings(coin());
  Covariance c(o);
  for (int round = 0; round < 2; ++round) {       // a Covariance object can be used again, also for another problem
    auto P = problem(true);
    Ref r = of(P, o.apply_loss_function);
    if (condition(r.e.J) > 1e3) return;
    auto before = values(P);
    Pairs q;
    auto v = requests(P, &q, coin(0.2) ? 1.0 : 0.5);
    if (!ok("a Jacobian of full rank has a covariance", c.Compute(q, P.p.get()))) return;
    compare(P, r, inverse(r.e.J), c, v, 1e-6);
    ok("the parameters are not touched", values(P) == before);
  }
}
void matrix() {
  auto o = settings(coin());
  auto P = problem(true);
  Ref r = of(P, o.apply_loss_function);
  if (condition(r.e.J) > 1e3) return;
  DM C = inverse(r.e.J);
  auto ids = subset(P.b.size(), 0.8);
  if (ids.empty()) return;
  std::vector<const double*> q;
  for (int j : ids) q.push_back(P.b[j].x.data());
  Covariance c(o);
  if (!ok("a Jacobian of full rank has a covariance", c.Compute(q, P.p.get()))) return;
  // any subset in any order
  for (size_t j = ids.size(); j > 1; --j) std::swap(ids[j - 1], ids[integer(0, int(j) - 1)]);
  ids.resize(integer(1, int(ids.size())));
  q.clear();
  for (int j : ids) q.push_back(P.b[j].x.data());
  for (int ambient = 0; ambient < 2; ++ambient) {
    int n = 0;
    for (int j : ids) n += ambient ? P.b[j].size() : P.b[j].tangent();
    DM w(n, n);
    int a = 0;
    for (int i : ids) { int b = 0, h = 0; for (int j : ids) { DM k = want(P, r, C, i, j, ambient); w.block(a, b, k.rows(), k.cols()) = k; b += ambient ? P.b[j].size() : P.b[j].tangent(); h = ambient ? P.b[i].size() : P.b[i].tangent(); } a += h; }
    std::vector<double> out(n * n + 4, 777.0);
    if (!ok("the matrix of computed blocks is available", ambient ? c.GetCovarianceMatrix(q, out.data()) : c.GetCovarianceMatrixInTangentSpace(q, out.data()))) return;
    for (int k = 0; k < 4; ++k) ok("nothing behind the matrix is written", out[n * n + k] == 777.0);
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) close("the matrix consists of the blocks of the inverse", out[x * n + y], w(x, y), 1e-6, C.size() ? 4 * C.cwiseAbs().maxCoeff() : 1);
  }
  // a block which was not computed
  for (int j = 0; j < int(P.b.size()); ++j) {
    bool in = false;
    for (int i : ids) in |= i == j;
    if (in || r.col[j] < 0) continue;
    std::vector<double> out(4000);
    q.push_back(P.b[j].x.data());
    auto pairs = q;
    bool computed = c.GetCovarianceBlock(q.back(), q.back(), out.data());
    if (!computed) ok("no matrix with a block that was not computed", !c.GetCovarianceMatrix(q, out.data()));
    break;
  }
}
// No priors: the rank is whatever the terms give.
void rank() {
  bool dense = coin(0.7);
  auto o = settings(dense);
  auto P = problem(false);
  if (coin(0.15)) for (auto& m : P.t) { m.f->l.setZero(); m.f->eps = 0; }                                          // no information at all
  else if (coin(0.4)) for (auto& m : P.t) { if (m.f->eps == 0 || coin()) { m.f->eps = 0; if (m.f->n > 1) m.f->l.col(1) = m.f->l.col(0); } }    // dependent columns
  else if (dense && coin(0.7)) {                                                                                  // graded columns
    std::vector<double> w;
    for (auto& b : P.b) w.push_back(std::pow(10.0, -integer(0, 3)) * (b.size() > 0 ? 1 : 0));
    for (auto& m : P.t) { m.f->eps = 0; int at = 0; for (int j : m.blocks) for (int k = 0; k < P.b[j].size(); ++k) m.f->l.col(at++) *= w[j] * (k == 1 ? 0.05 : 1); }
  }
  Ref r = of(P, o.apply_loss_function);
  const int n = int(r.e.J.cols());
  if (!n) return;
  DV sv = DV::Zero(n);
  DM sq = DM::Zero(std::max<int>(n, int(r.e.J.rows())), n);       // at least as many rows as columns
  sq.topRows(r.e.J.rows()) = r.e.J;
  Eigen::JacobiSVD<DM> svd(sq, Eigen::ComputeThinV);
  sv = svd.singularValues();
  o.min_reciprocal_condition_number = dense ? std::pow(10.0, -integer(2, 6) * 2) : 1e-14;
  const double small = dense ? std::sqrt(o.min_reciprocal_condition_number) : 1e-5;
  int full = 0;
  for (int i = 0; i < n; ++i) { double t = sv(0) > 0 ? sv(i) / sv(0) : 0; if (t > (dense ? 1.05 * small : 1e-3)) ++full; else if (t > (dense ? small / 1.05 : 1e-12)) return; }   // a clear decision
  o.null_space_rank = dense ? (coin(0.3) ? -1 : coin() ? n - full : integer(0, n)) : 0;
  rac::note("cols", n); rac::note("rank", full); rac::note("null_space_rank", o.null_space_rank); rac::note("rows", r.e.J.rows());
  Covariance c(o);
  Pairs q;
  auto v = requests(P, &q, 0.7);
  bool any = false;
  for (auto& p : v) any |= r.col[p.first] >= 0 && r.col[p.second] >= 0;
  const int keep = o.null_space_rank < 0 ? full : n - o.null_space_rank;
  bool got = c.Compute(q, P.p.get());
  if (!any) { ok("nothing to compute is no failure", got); if (got) compare(P, r, DM::Zero(n, n), c, v, 1); return; }
  if (!ok("the rank decides on the outcome", got == (keep <= full)) || !got) return;
  // the truncated subspace has to be well defined
  if (keep < n && keep > 0 && sv(keep - 1) < 1.05 * sv(keep)) return;
  DM C = DM::Zero(n, n);
  for (int i = 0; i < keep; ++i) C += svd.matrixV().col(i) * svd.matrixV().col(i).transpose() / (sv(i) * sv(i));
  compare(P, r, C, c, v, 1e-4);
}
void failures() {
  auto o = settings(coin());
  auto P = problem(true);
  Ref r = of(P, o.apply_loss_function);
  Pairs q;
  for (auto& b : P.b) q.emplace_back(b.x.data(), b.x.data());
  if (r.active.empty()) return;
  P.t[integer(0, int(P.t.size()) - 1)].f->fail = true;
  Covariance c(o);
  ok("no covariance without a Jacobian", !c.Compute(q, P.p.get()));
  for (auto& m : P.t) m.f->fail = false;
  if (condition(r.e.J) > 1e3) return;
  ok("a failure does not stick", c.Compute(q, P.p.get()));
  std::vector<double> out(400);
  q.push_back(q[0]);
  ok("duplicates are refused", rac::check_fires([&] { c.Compute(q, P.p.get()); }));
}
}  // namespace
int main(int argc, char** argv) {
  rac::init(argc, argv);
  rac::group("blocks", 1500, blocks);
  rac::group("matrix", 1200, matrix);
  rac::group("rank", 2000, rank);
  rac::group("failures", 200, failures);
  return rac::finish();
}
