// Random block sparse least squares problems [E F] and their dense meaning.
#pragma once
#include <Eigen/Dense>
#include <memory>
#include "ceres/block_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/linear_solver.h"
#include "rac.h"
using namespace ceres;
using namespace ceres::internal;
using rac::close; using rac::ok;
using DM = Eigen::MatrixXd;
using DV = Eigen::VectorXd;
static ContextImpl* ctx() { static ContextImpl* c = [] { auto* q = new ContextImpl; q->EnsureMinimumThreads(4); return q; }(); return c; }
static DV some(int n) { DV v(n); for (int i = 0; i < n; ++i) v(i) = rac::integer(-9, 9); return v; }


struct Prob {
  int ne = 0, nf = 0, cols_e = 0, cols_f = 0;
  std::unique_ptr<BlockSparseMatrix> A;
  DM dense;
  DV b, D;
  bool has_d = false;
  DM H() const { DM h = dense.transpose() * dense; if (has_d) h += D.array().square().matrix().asDiagonal(); return h; }
  const double* d() const { return has_d ? D.data() : nullptr; }
};
// rsize/esize/fsize > 0: fixed block sizes.
static Prob make(int rsize, int esize, int fsize, int max_f = 4, bool every_row_has_f = false) {
  for (;;) {
    Prob p;
    p.ne = rac::integer(1, 4);
    p.nf = rac::integer(1, max_f);
    p.has_d = rac::coin(0.6);
    auto* s = new CompressedRowBlockStructure;
    int pos = 0;
    for (int i = 0; i < p.ne + p.nf; ++i) {
      int z = i < p.ne ? (esize > 0 ? esize : rac::integer(1, 4)) : (fsize > 0 ? fsize : rac::integer(1, 4));
      s->cols.emplace_back(z, pos);
      pos += z;
      (i < p.ne ? p.cols_e : p.cols_f) += z;
    }
    const int n = pos;
    int row = 0, nnz = 0;
    auto add = [&](int size, const std::vector<int>& cs) {
      s->rows.emplace_back(int(cs.size()));
      auto& r = s->rows.back();
      r.block = Block(size, row);
      row += size;
      int own = 0;
      for (int k = 0; k < int(cs.size()); ++k) { r.cells[k] = Cell(cs[k], nnz); nnz += size * s->cols[cs[k]].size; own += size * s->cols[cs[k]].size; }
      r.nnz = own;
      r.cumulative_nnz = nnz;
    };
    auto some_f = [&](bool at_least_one) {
      std::vector<int> f;
      for (int j = 0; j < p.nf; ++j) if (rac::coin(0.55)) f.push_back(p.ne + j);
      if (f.empty() && at_least_one) f.push_back(p.ne + rac::integer(0, p.nf - 1));
      return f;
    };
    for (int e = 0; e < p.ne; ++e) {
      int have = 0, want = s->cols[e].size + rac::integer(0, 3);
      while (have < want) {
        int z = rsize > 0 ? rsize : rac::integer(1, 4);
        auto f = some_f(every_row_has_f);
        f.insert(f.begin(), e);
        add(z, f);
        have += z;
      }
    }
    const int extra = rac::coin(0.3) ? 0 : rac::integer(1, 4);
    for (int i = 0; i < extra; ++i) add(rac::integer(1, 4), some_f(true));
    p.A = std::make_unique<BlockSparseMatrix>(s);
    p.dense = DM::Zero(row, n);
    for (auto& r : s->rows) for (auto& c : r.cells)
      for (int i = 0; i < r.block.size; ++i) for (int j = 0; j < s->cols[c.block_id].size; ++j) {
        double v = rac::tame();
        p.A->mutable_values()[c.position + i * s->cols[c.block_id].size + j] = v;
        p.dense(r.block.position + i, s->cols[c.block_id].position + j) = v;
      }
    p.b = some(row);
    p.D = DV(n);
    for (int i = 0; i < n; ++i) p.D(i) = rac::coin(0.2) ? 0.0 : std::fabs(rac::tame()) + 0.1;
    DM h = p.H();
    DM ete = h.topLeftCorner(p.cols_e, p.cols_e);
    if (Eigen::SelfAdjointEigenSolver<DM>(ete).eigenvalues()(0) < 1e-2) continue;
    rac::note("ne", p.ne); rac::note("nf", p.nf); rac::note("rows", row); rac::note("cols", n); rac::note("D", p.has_d);
    return p;
  }
}
static std::vector<Block> f_blocks(const Prob& p) {
  std::vector<Block> r;
  int pos = 0;
  for (int j = 0; j < p.nf; ++j) { int z = p.A->block_structure()->cols[p.ne + j].size; r.emplace_back(z, pos); pos += z; }
  return r;
}
static double smallest(const DM& m) { return Eigen::SelfAdjointEigenSolver<DM>(m).eigenvalues()(0); }
struct Ref { DM S; DV r; DM iE; DM h; DV g; };
static Ref reference(const Prob& p) {
  Ref q;
  q.h = p.H(); q.g = p.dense.transpose() * p.b;
  const int e = p.cols_e, f = p.cols_f;
  q.iE = q.h.topLeftCorner(e, e).partialPivLu().inverse();
  q.S = q.h.bottomRightCorner(f, f) - q.h.bottomLeftCorner(f, e) * q.iE * q.h.topRightCorner(e, f);
  q.r = q.g.tail(f) - q.h.bottomLeftCorner(f, e) * q.iE * q.g.head(e);
  return q;
}
static void same(const char* c, const DM& a, const DM& b, double tol = 1e-9) {
  if (!ok(c, a.rows() == b.rows() && a.cols() == b.cols(), "size")) return;
  double m = b.size() ? b.cwiseAbs().maxCoeff() : 0;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!close(c, a(i, j), b(i, j), tol, m)) return;
}
static LinearSolver::Options opt(const Prob& p, int threads) {
  LinearSolver::Options o;
  o.elimination_groups = {p.ne, p.nf};
  o.num_threads = threads;
  o.context = ctx();
  return o;
}
