// SOURCES: compressed_row_sparse_matrix.cc triplet_sparse_matrix.cc block_sparse_matrix.cc dense_sparse_matrix.cc block_structure.cc sparse_matrix.cc linear_operator.cc parallel_invoke.cc context_impl.cc thread_pool.cc parallel_vector_ops.cc parallel_utils.cc context.cc
#include <Eigen/Dense>
#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/triplet_sparse_matrix.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using namespace ceres::internal;
using rac::close; using rac::ok;
using DM = Eigen::MatrixXd;
using DV = Eigen::VectorXd;
static ContextImpl* ctx() { static ContextImpl* c = [] { auto* q = new ContextImpl; q->EnsureMinimumThreads(4); return q; }(); return c; }
static DV some(int n) { DV v(n); for (int i = 0; i < n; ++i) v(i) = rac::integer(-9, 9); return v; }
static DM dense(const SparseMatrix& m) { Matrix d; m.ToDenseMatrix(&d); return d; }
static DM crs_dense(const CompressedRowSparseMatrix& m, bool sorted = true) {
  DM d = DM::Zero(m.num_rows(), m.num_cols());
  ok("row pointers start at zero", m.rows()[0] == 0);
  for (int i = 0; i < m.num_rows(); ++i) for (int k = m.rows()[i]; k < m.rows()[i + 1]; ++k) {
    ok("columns in range", m.cols()[k] >= 0 && m.cols()[k] < m.num_cols());
    if (sorted && k > m.rows()[i]) ok("columns are sorted", m.cols()[k - 1] <= m.cols()[k]);
    d(i, m.cols()[k]) += m.values()[k];
  }
  ok("row pointers end at the number of nonzeros", m.rows()[m.num_rows()] == m.num_nonzeros());
  return d;
}
static void same(const char* w, const DM& a, const DM& b) { ok(w, a.rows() == b.rows() && a.cols() == b.cols() && a == b); }
// every operation of a matrix that stands for S and is shown as D
static void operations(SparseMatrix& m, const DM& S, const DM& D, bool norms = true) {
  int nr = int(D.rows()), nc = int(D.cols());
  ok("shape", m.num_rows() == nr && m.num_cols() == nc);
  same("dense form", dense(m), D);
  DV x = some(nc), y = some(nr), u = some(nr), v = some(nc), n = some(nc);
  DV y0 = y, v0 = v;
  int threads = rac::integer(1, 4);
  bool par = rac::coin();
  rac::note("threads", par ? threads : 0);
  if (par) static_cast<const LinearOperator&>(m).RightMultiplyAndAccumulate(x.data(), y.data(), ctx(), threads); else m.RightMultiplyAndAccumulate(x.data(), y.data());
  same("right product", y, y0 + S * x);
  if (par) static_cast<const LinearOperator&>(m).LeftMultiplyAndAccumulate(u.data(), v.data(), ctx(), threads); else m.LeftMultiplyAndAccumulate(u.data(), v.data());
  same("left product", v, v0 + S.transpose() * u);
  if (norms) {
    if (par) m.SquaredColumnNorm(n.data(), ctx(), threads); else m.SquaredColumnNorm(n.data());
    same("squared column norms", n, S.colwise().squaredNorm().transpose());
  }
  DV s = some(nc);
  if (par) m.ScaleColumns(s.data(), ctx(), threads); else m.ScaleColumns(s.data());
  same("scaled columns", dense(m), D * s.asDiagonal());
  if (par) m.SetZero(ctx(), threads); else m.SetZero();
  same("zero", dense(m), DM::Zero(nr, nc));
}
static TripletSparseMatrix random_triplet(int nr, int nc, DM* D, bool repeat) {
  std::vector<int> r, c; std::vector<double> v;
  *D = DM::Zero(nr, nc);
  double p = rac::unit();
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) while (rac::coin(p * 0.8)) {
    double x = rac::integer(-9, 9);
    r.push_back(i); c.push_back(j); v.push_back(x); (*D)(i, j) += x;
    if (!repeat) break;
  }
  for (size_t k = r.size(); k > 1; --k) { int q = rac::integer(0, int(k) - 1); std::swap(r[k - 1], r[q]); std::swap(c[k - 1], c[q]); std::swap(v[k - 1], v[q]); }
  rac::note("rows", nr); rac::note("cols", nc); rac::note("entries", int(r.size())); rac::note("repeat", repeat);
  return TripletSparseMatrix(nr, nc, r, c, v);
}
static void triplet() {
  DM D, B;
  int nr = rac::integer(1, 12), nc = rac::integer(1, 12);
  bool repeat = rac::coin(0.3);
  TripletSparseMatrix m = random_triplet(nr, nc, &D, repeat);
  ok("valid", m.IsValid());
  auto c = CompressedRowSparseMatrix::FromTripletSparseMatrix(m), t = CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(m);
  same("CRS from triplets", crs_dense(*c), D);
  same("transposed CRS from triplets", crs_dense(*t), D.transpose());
  same("transpose of CRS", crs_dense(*c->Transpose()), D.transpose());
  CRSMatrix k;
  c->ToCRSMatrix(&k);
  DM K = DM::Zero(k.num_rows, k.num_cols);
  for (int i = 0; i < k.num_rows; ++i) for (int j = k.rows[i]; j < k.rows[i + 1]; ++j) K(i, k.cols[j]) += k.values[j];
  same("CRS export", K, D);
  TripletSparseMatrix a(m), b;
  b = m;
  same("copies", dense(a), D); same("assignment", dense(b), D);
  TripletSparseMatrix n = random_triplet(rac::integer(1, 6), nc, &B, repeat);
  a.AppendRows(n);
  DM R(D.rows() + B.rows(), nc); R << D, B;
  same("appended rows", dense(a), R);
  TripletSparseMatrix o = random_triplet(nr, rac::integer(1, 6), &B, repeat);
  b.AppendCols(o);
  DM C(nr, D.cols() + B.cols()); C << D, B;
  same("appended columns", dense(b), C);
  int r2 = rac::integer(1, 15), c2 = rac::integer(1, 15);
  b.Resize(r2, c2);
  DM Z = DM::Zero(r2, c2);
  Z.topLeftCorner(std::min<int>(r2, nr), std::min<int>(c2, int(C.cols()))) = C.topLeftCorner(std::min<int>(r2, nr), std::min<int>(c2, int(C.cols())));
  same("resized", dense(b), Z);
  DenseSparseMatrix d(m);
  operations(d, D, D);
  if (!repeat) { operations(*c, D, D); }
  operations(m, D, D, !repeat);
}
static void symmetric() {
  int n = rac::integer(1, 10);
  bool lower = rac::coin();
  DM D = DM::Zero(n, n), S = D, U = D;
  CompressedRowSparseMatrix m(n, n, n * n);
  int k = 0;
  double p = rac::unit();
  bool other = rac::coin(0.3);  // entries of the other triangle are allowed and ignored
  for (int i = 0; i < n; ++i) {
    m.mutable_rows()[i] = k;
    for (int j = 0; j < n; ++j) {
      bool in = lower ? j <= i : j >= i;
      if ((!in && !other) || !rac::coin(p)) continue;
      double x = rac::integer(-9, 9);
      m.mutable_cols()[k] = j; m.mutable_values()[k++] = x;
      D(i, j) = x;
      if (in) S(i, j) = S(j, i) = x;
    }
  }
  m.mutable_rows()[n] = k;
  rac::note("n", n); rac::note("lower", lower); rac::note("other", other);
  using T = CompressedRowSparseMatrix::StorageType;
  m.set_storage_type(lower ? T::LOWER_TRIANGULAR : T::UPPER_TRIANGULAR);
  auto t = m.Transpose();
  ok("transposed storage type", t->storage_type() == (lower ? T::UPPER_TRIANGULAR : T::LOWER_TRIANGULAR));
  same("transpose", crs_dense(*t), D.transpose());
  operations(m, S, D);
}
static void block() {
  int nr = rac::integer(1, 12), nc = rac::integer(1, 8), p = 0, pos = 0;
  auto* s = new CompressedRowBlockStructure;
  for (int i = 0; i < nc; ++i) { int k = rac::integer(1, 5); s->cols.emplace_back(k, p); p += k; }
  int cols = p, rows = 0;
  double q = rac::unit();
  std::vector<std::array<int, 3>> at;
  for (int i = 0; i < nr; ++i) {
    int k = rac::integer(1, 4), n = 0;
    s->rows.emplace_back();
    s->rows[i].block = Block(k, rows);
    for (int j = 0; j < nc; ++j) if (rac::coin(q)) { s->rows[i].cells.emplace_back(j, pos); for (int a = 0; a < k; ++a) for (int b = 0; b < s->cols[j].size; ++b) at.push_back({rows + a, s->cols[j].position + b, pos++}), ++n; }
    s->rows[i].nnz = n; s->rows[i].cumulative_nnz = pos;
    rows += k;
  }
  CompressedRowBlockStructure twin = *s;
  BlockSparseMatrix m(s);
  rac::note("rows", rows); rac::note("cols", cols); rac::note("nonzeros", pos);
  auto fill = [&](BlockSparseMatrix& m) { DM D = DM::Zero(rows, cols); for (auto& a : at) { m.mutable_values()[a[2]] = rac::integer(-9, 9); D(a[0], a[1]) = m.values()[a[2]]; } return D; };
  ok("nonzeros", m.num_nonzeros() == pos);
  DM D = fill(m);
  if (rac::coin()) m.AddTransposeBlockStructure();
  if (m.transpose_block_structure()) {
    DM T = DM::Zero(cols, rows);
    const auto& t = *m.transpose_block_structure();
    for (auto& r : t.rows) for (auto& c : r.cells) for (int a = 0; a < r.block.size; ++a) for (int b = 0; b < t.cols[c.block_id].size; ++b)
      T(r.block.position + a, t.cols[c.block_id].position + b) = m.values()[c.position + b * r.block.size + a];
    same("transpose block structure", T, D.transpose());
  }
  auto c = m.ToCompressedRowSparseMatrix(), t = m.ToCompressedRowSparseMatrixTranspose();
  same("CRS", crs_dense(*c), D); same("transposed CRS", crs_dense(*t), D.transpose());
  ok("block structure of the CRS", c->row_blocks().size() == size_t(nr) && c->col_blocks().size() == size_t(nc) && t->row_blocks().size() == size_t(nc) && t->col_blocks().size() == size_t(nr));
  TripletSparseMatrix tr;
  m.ToTripletSparseMatrix(&tr);
  same("triplets", dense(tr), D);
  D = fill(m);
  m.UpdateCompressedRowSparseMatrix(c.get()); m.UpdateCompressedRowSparseMatrixTranspose(t.get());
  same("updated CRS", crs_dense(*c), D); same("updated transposed CRS", crs_dense(*t), D.transpose());
  // rows: append a copy, a diagonal, then delete
  BlockSparseMatrix o(new CompressedRowBlockStructure(twin));
  DM B = fill(o);
  m.AppendRows(o);
  DM E(2 * rows, cols); E << D, B;
  same("appended rows", dense(m), E);
  DV d = some(cols);
  auto g = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), s->cols);
  same("diagonal", dense(*g), d.asDiagonal());
  m.AppendRows(*g);
  DM F(2 * rows + cols, cols); F << E, DM(d.asDiagonal());
  same("appended diagonal", dense(m), F);
  if (rac::coin()) { operations(m, F, F); for (int i = 0; i < 1; ++i) return; }
  m.DeleteRowBlocks(nc);
  same("deleted diagonal", dense(m), E);
  m.DeleteRowBlocks(rac::integer(0, 1) ? nr : 0);
  if (m.num_rows() == rows) same("deleted rows", dense(m), D);
  DM now = m.num_rows() == rows ? D : E;
  operations(m, now, now);
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("triplet, CRS and dense", 2500, triplet);
  rac::group("symmetric storage", 2000, symmetric);
  rac::group("block sparse", 2500, block);
  return rac::finish();
}
