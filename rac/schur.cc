// SOURCES: block_sparse_matrix.cc triplet_sparse_matrix.cc compressed_row_sparse_matrix.cc block_structure.cc sparse_matrix.cc linear_operator.cc partitioned_matrix_view.cc schur_eliminator.cc generated/schur_eliminator_d_d_d.cc generated/partitioned_matrix_view_d_d_d.cc parallel_invoke.cc parallel_utils.cc parallel_vector_ops.cc thread_pool.cc context_impl.cc context.cc implicit_schur_complement.cc inner_product_computer.cc preconditioner.cc power_series_expansion_preconditioner.cc block_random_access_matrix.cc block_random_access_dense_matrix.cc block_random_access_sparse_matrix.cc block_random_access_diagonal_matrix.cc schur_jacobi_preconditioner.cc thread_token_provider.cc types.cc /verif/rac/extra/schur_make.cc /verif/rac/extra/schur_view.cc
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include <Eigen/Dense>
#include <mutex>
#include <set>
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/inner_product_computer.h"
#include "ceres/invert_psd_matrix.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "rac.h"
RAC_MAIN_SUPPORT
#include "bprob.h"
std::unique_ptr<SchurEliminatorBase> make_eliminator(int k, const LinearSolver::Options& o);
std::unique_ptr<PartitionedMatrixViewBase> make_view(int k, const LinearSolver::Options& o, const BlockSparseMatrix& m);
static void check_upper(const char* what, const DM& got, const DM& want, const std::vector<Block>& blocks) {
  double m = want.cwiseAbs().maxCoeff();
  for (size_t a = 0; a < blocks.size(); ++a) for (size_t b = a; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[a].size; ++i) for (int j = 0; j < blocks[b].size; ++j) {
      int r = blocks[a].position + i, c = blocks[b].position + j;
      if (!close(what, got(r, c), want(r, c), 1e-9, m)) return;
    }
}
static void exercise(Prob& p, SchurEliminatorBase& e, int threads) {
  auto ref = reference(p);
  auto blocks = f_blocks(p);
  const auto* bs = p.A->block_structure();
  for (int round = 0; round < 2; ++round) {
    e.Init(p.ne, true, bs);
    BlockRandomAccessDenseMatrix lhs(blocks, ctx(), threads);
    DV rhs = some(p.cols_f);
    e.Eliminate(BlockSparseMatrixData(*p.A), p.b.data(), p.d(), &lhs, rhs.data());
    DM L = Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(lhs.values(), p.cols_f, p.cols_f);
    check_upper("Eliminate: upper block triangle of lhs = F'F + D_F^2 - F'E (E'E + D_E^2)^-1 E'F", L, ref.S, blocks);
    same("Eliminate: rhs = F'b - F'E (E'E + D_E^2)^-1 E'b", rhs, ref.r);
    DV z = some(p.cols_f);
    DV y = DV::Zero(p.cols_e);
    e.BackSubstitute(BlockSparseMatrixData(*p.A), p.b.data(), p.d(), z.data(), y.data());
    same("BackSubstitute: y = (E'E + D_E^2)^-1 E'(b - F z)", y, ref.iE * (ref.g.head(p.cols_e) - ref.h.topRightCorner(p.cols_e, p.cols_f) * z));
    DM full = ref.S.selfadjointView<Eigen::Upper>();
    if (smallest(full) > 1e-2) {
      DV zs = full.llt().solve(rhs), ys = DV::Zero(p.cols_e);
      e.BackSubstitute(BlockSparseMatrixData(*p.A), p.b.data(), p.d(), zs.data(), ys.data());
      DV x(p.cols_e + p.cols_f); x << ys, zs;
      same("(y, z) satisfies the normal equations (A'A + D^2) x = A'b", ref.h * x, ref.g, 1e-8);
    }
  }
}

int main(int argc, char** argv) {
  rac::init(argc, argv);
  rac::group("Eliminate and BackSubstitute, any block sizes", 250, [] {
    auto p = make(0, 0, 0);
    int t = rac::integer(1, 4);
    auto o = opt(p, t);
    auto ep = make_eliminator(0, o);
    auto& e = *ep;
    exercise(p, e, t);
  });
  rac::group("Eliminate and BackSubstitute, <2,3,6>", 100, [] {
    auto p = make(2, 3, 6);
    int t = rac::integer(1, 4);
    auto o = opt(p, t);
    auto ep = make_eliminator(1, o);
    auto& e = *ep;
    exercise(p, e, t);
  });
  rac::group("Eliminate and BackSubstitute, one F block <2,3,6>", 100, [] {
    auto p = make(2, 3, 6, 1, true);
    auto o = opt(p, 1);
    auto ep = make_eliminator(3, o);
    auto& e = *ep;
    exercise(p, e, 1);
  });
  rac::group("rank deficient E'E uses the pseudo inverse", 80, [] {
    auto p = make(0, 0, 0);
    p.has_d = false;
    // repeat the first E column of a block with two or more columns
    const auto* bs = p.A->block_structure();
    int k = -1;
    for (int i = 0; i < p.ne; ++i) if (bs->cols[i].size > 1) k = i;
    if (k < 0) return;
    for (auto& r : bs->rows) if (r.cells[0].block_id == k)
      for (int i = 0; i < r.block.size; ++i) {
        double* v = p.A->mutable_values() + r.cells[0].position + i * bs->cols[k].size;
        v[1] = v[0];
        p.dense(r.block.position + i, bs->cols[k].position + 1) = v[0];
      }
    DM h = p.H(), ete = h.topLeftCorner(p.cols_e, p.cols_e);
    Eigen::SelfAdjointEigenSolver<DM> es(ete);
    DV w = es.eigenvalues();
    bool gap = true;
    for (int i = 0; i < w.size(); ++i) if (w(i) > 1e-10 && w(i) < 1e-2) gap = false;
    if (!gap) return;
    DV iw = w;
    for (int i = 0; i < w.size(); ++i) iw(i) = w(i) > 1e-10 ? 1 / w(i) : 0.0;
    DM pinv = es.eigenvectors() * iw.asDiagonal() * es.eigenvectors().transpose();
    auto blocks = f_blocks(p);
    auto o = opt(p, 1);
    auto ep = make_eliminator(0, o);
    auto& e = *ep;
    e.Init(p.ne, false, bs);
    BlockRandomAccessDenseMatrix lhs(blocks, ctx(), 1);
    DV rhs = some(p.cols_f);
    e.Eliminate(BlockSparseMatrixData(*p.A), p.b.data(), nullptr, &lhs, rhs.data());
    DM L = Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(lhs.values(), p.cols_f, p.cols_f);
    const int ne = p.cols_e, f = p.cols_f;
    DV g = p.dense.transpose() * p.b;
    check_upper("Eliminate with rank deficient E'E: pseudo inverse", L, h.bottomRightCorner(f, f) - h.bottomLeftCorner(f, ne) * pinv * h.topRightCorner(ne, f), blocks);
    same("Eliminate with rank deficient E'E: rhs", rhs, g.tail(f) - h.bottomLeftCorner(f, ne) * pinv * g.head(ne), 1e-8);
  });
  rac::group("Schur Jacobi preconditioner and block diagonal lhs", 120, [] {
    auto p = make(0, 0, 0);
    auto ref = reference(p);
    auto blocks = f_blocks(p);
    for (auto& b : blocks) {
      DM s = ref.S.block(b.position, b.position, b.size, b.size);
      if (smallest(s) < 1e-2) return;
    }
    Preconditioner::Options o;
    o.type = SCHUR_JACOBI;
    o.elimination_groups = {p.ne, p.nf};
    o.num_threads = rac::integer(1, 4);
    o.context = ctx();
    SchurJacobiPreconditioner m(*p.A->block_structure(), o);
    ok("SchurJacobi: num_rows = columns of F", m.num_rows() == p.cols_f);
    for (int round = 0; round < 2; ++round) {
      ok("SchurJacobi: Update succeeds", m.Update(*p.A, p.d()));
      DV x = some(p.cols_f), y = some(p.cols_f), want = y;
      m.RightMultiplyAndAccumulate(x.data(), y.data());
      for (auto& b : blocks) want.segment(b.position, b.size) += ref.S.block(b.position, b.position, b.size, b.size).partialPivLu().inverse() * x.segment(b.position, b.size);
      same("SchurJacobi: y += (block diagonal of S)^-1 x", y, want, 1e-8);
    }
  });
  rac::group("sparse lhs: cells, untouched cells, symmetric product", 120, [] {
    auto p = make(0, 0, 0);
    auto ref = reference(p);
    auto blocks = f_blocks(p);
    absl::btree_set<std::pair<int, int>> cells;
    for (int i = 0; i < p.nf; ++i) cells.emplace(i, i);
    const auto* bs = p.A->block_structure();
    for (int e = 0; e < p.ne; ++e) {
      std::set<int> f;
      for (auto& r : bs->rows) if (r.cells[0].block_id == e) for (auto& c : r.cells) if (c.block_id >= p.ne) f.insert(c.block_id - p.ne);
      for (int a : f) for (int b : f) if (a <= b) cells.emplace(a, b);
    }
    for (auto& r : bs->rows) if (r.cells[0].block_id >= p.ne) for (auto& a : r.cells) for (auto& b : r.cells) if (a.block_id <= b.block_id) cells.emplace(a.block_id - p.ne, b.block_id - p.ne);
    int t = rac::integer(1, 4);
    BlockRandomAccessSparseMatrix m(blocks, cells, ctx(), t);
    ok("BlockRandomAccessSparseMatrix: square", m.num_rows() == p.cols_f && m.num_cols() == p.cols_f);
    auto o = opt(p, t);
    auto ep = make_eliminator(0, o);
    auto& e = *ep;
    e.Init(p.ne, true, bs);
    DV rhs = some(p.cols_f);
    e.Eliminate(BlockSparseMatrixData(*p.A), p.b.data(), p.d(), &m, rhs.data());
    same("Eliminate (sparse lhs): rhs", rhs, ref.r);
    double mx = ref.S.cwiseAbs().maxCoeff();
    for (int a = 0; a < p.nf; ++a) for (int b = a; b < p.nf; ++b) {
      int r, c, rs, cs;
      CellInfo* ci = m.GetCell(a, b, &r, &c, &rs, &cs);
      ok("GetCell: null exactly for cells outside the structure", (ci != nullptr) == (cells.count({a, b}) > 0));
      for (int i = 0; i < blocks[a].size; ++i) for (int j = 0; j < blocks[b].size; ++j) {
        double want = ref.S(blocks[a].position + i, blocks[b].position + j);
        close("Eliminate (sparse lhs): cell of S", ci ? ci->values[(r + i) * cs + c + j] : 0.0, want, 1e-9, mx);
      }
    }
    DM full = DM::Zero(p.cols_f, p.cols_f);
    for (int a = 0; a < p.nf; ++a) for (int b = a; b < p.nf; ++b) {
      int r, c, rs, cs;
      CellInfo* ci = m.GetCell(a, b, &r, &c, &rs, &cs);
      if (!ci) continue;
      for (int i = 0; i < blocks[a].size; ++i) for (int j = 0; j < blocks[b].size; ++j) {
        double v = rac::integer(-9, 9);
        if (a == b && j < i) v = full(blocks[a].position + j, blocks[a].position + i);
        ci->values[(r + i) * cs + c + j] = v;
        full(blocks[a].position + i, blocks[b].position + j) = v;
        full(blocks[b].position + j, blocks[a].position + i) = v;
      }
    }
    DV x = some(p.cols_f), y = some(p.cols_f), want = y + full * x;
    m.SymmetricRightMultiplyAndAccumulate(x.data(), y.data());
    same("SymmetricRightMultiplyAndAccumulate: y += S x", y, want);
    m.SetZero();
    for (auto& c : cells) {
      int r, cc, rs, cs;
      CellInfo* ci = m.GetCell(c.first, c.second, &r, &cc, &rs, &cs);
      for (int i = 0; i < blocks[c.first].size; ++i) for (int j = 0; j < blocks[c.second].size; ++j) ok("SetZero", ci && ci->values[(r + i) * cs + cc + j] == 0);
    }
  });
  rac::group("random access block diagonal matrix", 80, [] {
    int n = rac::integer(1, 4), pos = 0, t = rac::integer(1, 4);
    std::vector<Block> blocks;
    for (int i = 0; i < n; ++i) { int z = rac::integer(1, 4); blocks.emplace_back(z, pos); pos += z; }
    BlockRandomAccessDiagonalMatrix m(blocks, ctx(), t);
    DM full = DM::Zero(pos, pos);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      int r, c, rs, cs;
      auto* ci = m.GetCell(i, j, &r, &c, &rs, &cs);
      ok("GetCell: null exactly off the diagonal", (ci != nullptr) == (i == j));
      if (!ci) continue;
      int z = blocks[i].size;
      DM g = DM::Random(z, z);
      g = DM(g * g.transpose() + DM::Identity(z, z));
      full.block(blocks[i].position, blocks[i].position, z, z) = g;
      for (int a = 0; a < z; ++a) for (int b = 0; b < z; ++b) ci->values[(r + a) * cs + c + b] = g(a, b);
    }
    DV x = some(pos), y = some(pos), want = y + full * x;
    m.RightMultiplyAndAccumulate(x.data(), y.data());
    same("block diagonal: y += m x", y, want);
    m.Invert();
    y = some(pos); want = y + full.partialPivLu().inverse() * x;
    m.RightMultiplyAndAccumulate(x.data(), y.data());
    same("block diagonal: Invert then y += m^-1 x", y, want, 1e-8);
    m.SetZero();
    y = some(pos); want = y;
    m.RightMultiplyAndAccumulate(x.data(), y.data());
    same("block diagonal: SetZero then y unchanged", y, want);
  });
  auto view = [](Prob& p, PartitionedMatrixViewBase& v, int t) {
    const int e = p.cols_e, f = p.cols_f, n = p.dense.rows();
    DM E = p.dense.leftCols(e), F = p.dense.rightCols(f);
    ok("PartitionedMatrixView: dimensions", v.num_cols_e() == e && v.num_cols_f() == f && v.num_rows() == n && v.num_cols() == e + f && v.num_col_blocks_e() == p.ne && v.num_col_blocks_f() == p.nf);
    DV x, y, w;
    x = some(e); y = some(n); w = y + E * x; v.RightMultiplyAndAccumulateE(x.data(), y.data()); same("y += E x", y, w);
    x = some(f); y = some(n); w = y + F * x; v.RightMultiplyAndAccumulateF(x.data(), y.data()); same("y += F x", y, w);
    x = some(n); y = some(e); w = y + E.transpose() * x; v.LeftMultiplyAndAccumulateE(x.data(), y.data()); same("y += E' x", y, w);
    x = some(n); y = some(f); w = y + F.transpose() * x; v.LeftMultiplyAndAccumulateF(x.data(), y.data()); same("y += F' x", y, w);
    for (int k = 0; k < 2; ++k) {
      auto m = k ? v.CreateBlockDiagonalFtF() : v.CreateBlockDiagonalEtE();
      DM g = k ? DM(F.transpose() * F) : DM(E.transpose() * E);
      auto* bs = p.A->block_structure();
      DM want = DM::Zero(g.rows(), g.cols());
      int pos = 0;
      for (int i = k ? p.ne : 0; i < (k ? p.ne + p.nf : p.ne); ++i) { int z = bs->cols[i].size; want.block(pos, pos, z, z) = g.block(pos, pos, z, z); pos += z; }
      Matrix got;
      m->ToDenseMatrix(&got);
      same(k ? "CreateBlockDiagonalFtF" : "CreateBlockDiagonalEtE", got, want);
      for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = 77;
      if (k) v.UpdateBlockDiagonalFtF(m.get()); else v.UpdateBlockDiagonalEtE(m.get());
      m->ToDenseMatrix(&got);
      same(k ? "UpdateBlockDiagonalFtF" : "UpdateBlockDiagonalEtE", got, want);
    }
  };
  rac::group("partitioned view, any block sizes", 200, [&] {
    auto p = make(0, 0, 0);
    int t = rac::integer(1, 4);
    auto o = opt(p, t);
    auto vp = make_view(0, o, *p.A);
    auto& v = *vp;
    view(p, v, t);
  });
  rac::group("partitioned view, <2,3,6>", 100, [&] {
    auto p = make(2, 3, 6);
    int t = rac::integer(1, 4);
    auto o = opt(p, t);
    auto vp = make_view(1, o, *p.A);
    auto& v = *vp;
    view(p, v, t);
  });
  rac::group("implicit Schur complement", 150, [] {
    auto p = make(0, 0, 0);
    auto o = opt(p, rac::integer(1, 4));
    bool spse = rac::coin();
    o.preconditioner_type = rac::coin() ? JACOBI : SCHUR_POWER_SERIES_EXPANSION;
    o.use_spse_initialization = spse;
    bool ftf = o.preconditioner_type != IDENTITY || spse;
    auto ref = reference(p);
    const int e = p.cols_e, f = p.cols_f;
    DM hff = DM::Zero(f, f);
    for (auto& b : f_blocks(p)) {
      DM s = ref.h.block(e + b.position, e + b.position, b.size, b.size);
      if (smallest(s) < 1e-2) return;
      hff.block(b.position, b.position, b.size, b.size) = s.partialPivLu().inverse();
    }
    ImplicitSchurComplement isc(o);
    for (int round = 0; round < 2; ++round) {
      isc.Init(*p.A, p.d(), p.b.data());
      ok("implicit: rows and columns", isc.num_rows() == f && isc.num_cols() == f);
      same("implicit: rhs = F'b - F'E (E'E + D_E^2)^-1 E'b", isc.rhs(), ref.r);
      DV x = some(f), y = DV::Zero(f);
      isc.RightMultiplyAndAccumulate(x.data(), y.data());
      same("implicit: y = S x", y, ref.S * x);
      DV z = some(f), sol = some(e + f);
      isc.BackSubstitute(z.data(), sol.data());
      same("implicit: BackSubstitute keeps z", sol.tail(f), z);
      same("implicit: BackSubstitute y = (E'E + D_E^2)^-1 E'(b - F z)", sol.head(e), ref.iE * (ref.g.head(e) - ref.h.topRightCorner(e, f) * z));
      Matrix q;
      isc.block_diagonal_EtE_inverse()->ToDenseMatrix(&q);
      same("implicit: block_diagonal_EtE_inverse", q, ref.iE);
      if (ftf) {
        isc.block_diagonal_FtF_inverse()->ToDenseMatrix(&q);
        same("implicit: block_diagonal_FtF_inverse", q, hff);
        y = some(f); DV w = y + hff * (ref.h.bottomLeftCorner(f, e) * (ref.iE * (ref.h.topRightCorner(e, f) * x)));
        y = DV::Zero(f); w -= w; w = hff * (ref.h.bottomLeftCorner(f, e) * (ref.iE * (ref.h.topRightCorner(e, f) * x)));
        isc.InversePowerSeriesOperatorRightMultiplyAccumulate(x.data(), y.data());
        same("implicit: power series operator y = (F'F)^-1 F'E (E'E)^-1 E'F x", y, w, 1e-8);
        Preconditioner::Options po(o);
        int k = rac::integer(1, 4);
        PowerSeriesExpansionPreconditioner pre(&isc, k, 0.0, po);
        DV v = hff * x, term = v;
        for (int i = 1; i <= k; ++i) { term = hff * (ref.h.bottomLeftCorner(f, e) * (ref.iE * (ref.h.topRightCorner(e, f) * term))); v += term; }
        y = DV::Zero(f);
        pre.RightMultiplyAndAccumulate(x.data(), y.data());
        if (round == 0) { DV v2 = hff * x, t2 = v2; for (int i = 1; i < k; ++i) { t2 = hff * (ref.h.bottomLeftCorner(f, e) * (ref.iE * (ref.h.topRightCorner(e, f) * t2))); v2 += t2; }
          double m = v.cwiseAbs().maxCoeff() + 1;
          ok("power series preconditioner: truncated series sum_k (H_FF^-1 F'E (E'E)^-1 E'F)^k H_FF^-1 x", (y - v).cwiseAbs().maxCoeff() < 1e-7 * m || (y - v2).cwiseAbs().maxCoeff() < 1e-7 * m); }
      }
      for (int i = 0; i < p.A->num_nonzeros(); ++i) p.A->mutable_values()[i] *= 1.0;
    }
  });
  rac::group("inner product A'A", 150, [] {
    auto p = make(0, 0, 0);
    auto st = rac::coin() ? CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR : CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR;
    int nr = p.A->block_structure()->rows.size(), a = 0, b = nr;
    bool part = rac::coin();
    if (part) { a = rac::integer(0, nr - 1); b = rac::integer(a + 1, nr); }
    auto ipc = part ? InnerProductComputer::Create(*p.A, a, b, st) : InnerProductComputer::Create(*p.A, st);
    DM sub = DM::Zero(p.dense.rows(), p.dense.cols());
    for (int i = a; i < b; ++i) { auto& r = p.A->block_structure()->rows[i].block; sub.middleRows(r.position, r.size) = p.dense.middleRows(r.position, r.size); }
    DM g = sub.transpose() * sub;
    for (int round = 0; round < 2; ++round) {
      ipc->Compute();
      auto* m = ipc->mutable_result();
      ok("inner product: storage type and size", m->storage_type() == st && m->num_rows() == g.rows() && m->num_cols() == g.rows());
      DM got = DM::Zero(g.rows(), g.cols());
      DM seen = got;
      bool one_side = true;
      for (int i = 0; i < m->num_rows(); ++i) for (int k = m->rows()[i]; k < m->rows()[i + 1]; ++k) { got(i, m->cols()[k]) += m->values()[k]; seen(i, m->cols()[k]) += 1; }
      bool up = st == CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR;
      auto* bs = p.A->block_structure();
      std::vector<int> of(g.rows());
      for (int c = 0; c < int(bs->cols.size()); ++c) for (int k = 0; k < bs->cols[c].size; ++k) of[bs->cols[c].position + k] = c;
      double mx = g.cwiseAbs().maxCoeff();
      for (int i = 0; i < g.rows(); ++i) for (int j = 0; j < g.cols(); ++j) {
        bool mine = up ? of[i] <= of[j] : of[i] >= of[j];
        if (mine) close("inner product: block triangle of A'A", got(i, j), g(i, j), 1e-10, mx);
        else one_side = one_side && seen(i, j) == 0;
        ok("inner product: each entry stored once", seen(i, j) <= 1);
      }
      ok("inner product: nothing stored in the other block triangle", one_side);
    }
  });
  rac::group("InvertPSDMatrix", 300, [] {
    int n = rac::integer(1, 6);
    bool full = rac::coin();
    DM g = DM::Random(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g(i, j) = rac::tame();
    DM m = g * g.transpose();
    if (full) m += 0.1 * DM::Identity(n, n);
    else if (n > 1) { g.col(n - 1).setZero(); m = g * g.transpose(); }
    Eigen::SelfAdjointEigenSolver<DM> es(m);
    DV w = es.eigenvalues(), iw = w;
    double mx = w(n - 1);
    for (int i = 0; i < n; ++i) { if (w(i) > 1e-11 * mx && w(i) < 1e-3 * mx) return; iw(i) = w(i) > 1e-11 * mx && w(i) > 0 ? 1 / w(i) : 0; }
    if (full && w(0) < 1e-3 * mx) return;
    DM want = es.eigenvectors() * iw.asDiagonal() * es.eigenvectors().transpose();
    Matrix in = m;
    DM got;
    switch (rac::coin() ? 0 : n) {
      case 3: got = InvertPSDMatrix<3>(full, in); break;
      default: got = InvertPSDMatrix<Eigen::Dynamic>(full, in);
    }
    same("InvertPSDMatrix = (pseudo) inverse", got, want, 1e-7);
  });
  return rac::finish();
}
