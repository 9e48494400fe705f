#include "compressed_row_sparse_matrix.cc"
#include "triplet_sparse_matrix.cc"
#include "block_sparse_matrix.cc"
#include "dense_sparse_matrix.cc"
#include "block_structure.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "ceres/crs_matrix.h"
using namespace ceres;
using namespace ceres::internal;
namespace {
__attribute__((always_inline)) inline void dense(const SparseMatrix& m, double* out) {
  Matrix d;
  m.ToDenseMatrix(&d);
  for (int i = 0; i < d.rows(); ++i) for (int j = 0; j < d.cols(); ++j) out[i * d.cols() + j] = d(i, j);
}
__attribute__((always_inline)) inline void crs_out(const CompressedRowSparseMatrix& m, double* v, int* rows, int* cols) {
  for (int i = 0; i <= m.num_rows(); ++i) rows[i] = m.rows()[i];
  for (int i = 0; i < m.num_nonzeros(); ++i) { cols[i] = m.cols()[i]; v[i] = m.values()[i]; }
}
// op 0: y += A x, 1: y += A' x, 2: squared column norms, 3: scale columns and show, 4: show, 5: set zero and show
__attribute__((always_inline)) inline void apply(SparseMatrix& m, int op, const double* x, double* y) {
  switch (op) {
    case 0: m.RightMultiplyAndAccumulate(x, y); break;
    case 1: m.LeftMultiplyAndAccumulate(x, y); break;
    case 2: m.SquaredColumnNorm(y); break;
    case 3: m.ScaleColumns(x); dense(m, y); break;
    case 4: dense(m, y); break;
    case 5: m.SetZero(); dense(m, y); break;
  }
}
__attribute__((always_inline)) inline void fill(CompressedRowSparseMatrix& m, int nr, int nnz, const int* rows, const int* cols, const double* v, int type) {
  for (int i = 0; i <= nr; ++i) m.mutable_rows()[i] = rows[i];
  for (int i = 0; i < nnz; ++i) { m.mutable_cols()[i] = cols[i]; m.mutable_values()[i] = v[i]; }
  m.set_storage_type(static_cast<CompressedRowSparseMatrix::StorageType>(type));
}
__attribute__((always_inline)) inline std::unique_ptr<BlockSparseMatrix> blocks(int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v) {
  auto* s = new CompressedRowBlockStructure;
  int p = 0, nnz = 0;
  for (int i = 0; i < nc; ++i) { s->cols.emplace_back(cs[i], p); p += cs[i]; }
  p = 0;
  for (int i = 0; i < nr; ++i) {
    s->rows.emplace_back(count[i]);
    s->rows[i].block = Block(rs[i], p);
    p += rs[i];
    int n = 0;
    for (int j = 0; j < count[i]; ++j) { int c = *cell++; s->rows[i].cells[j] = Cell(c, nnz); n += rs[i] * cs[c]; nnz += rs[i] * cs[c]; }
    s->rows[i].nnz = n;
    s->rows[i].cumulative_nnz = nnz;
  }
  auto m = std::make_unique<BlockSparseMatrix>(s);
  for (int i = 0; i < nnz; ++i) m->mutable_values()[i] = v[i];
  return m;
}
}
extern "C" {
void w_crs(int op, int type, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, const double* x, double* y) {
  CompressedRowSparseMatrix m(nr, nc, nnz);
  fill(m, nr, nnz, rows, cols, v, type);
  apply(m, op, x, y);
}
int w_crs_transpose(int type, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, double* tv, int* trows, int* tcols, int* st) {
  CompressedRowSparseMatrix m(nr, nc, nnz);
  fill(m, nr, nnz, rows, cols, v, type);
  auto t = m.Transpose();
  crs_out(*t, tv, trows, tcols);
  st[0] = t->num_rows(); st[1] = t->num_cols(); st[2] = static_cast<int>(t->storage_type());
  return t->num_nonzeros();
}
int w_crs_rows(int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, int nr2, int nnz2, const int* rows2, const int* cols2, const double* v2, int remove, double* tv, int* trows, int* tcols) {
  CompressedRowSparseMatrix m(nr, nc, nnz), a(nr2, nc, nnz2);
  fill(m, nr, nnz, rows, cols, v, 0);
  fill(a, nr2, nnz2, rows2, cols2, v2, 0);
  m.AppendRows(a);
  if (remove) m.DeleteRows(remove);
  crs_out(m, tv, trows, tcols);
  return m.num_rows();
}
int w_crs_diagonal(int n, const double* d, int nb, const int* bs, int block, double* tv, int* trows, int* tcols) {
  if (!block) { CompressedRowSparseMatrix m(d, n); crs_out(m, tv, trows, tcols); return m.num_cols(); }
  std::vector<Block> b;
  int p = 0;
  for (int i = 0; i < nb; ++i) { b.emplace_back(bs[i], p); p += bs[i]; }
  auto m = CompressedRowSparseMatrix::CreateBlockDiagonalMatrix(d, b);
  crs_out(*m, tv, trows, tcols);
  return m->num_cols();
}
void w_triplet(int op, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, const double* x, double* y) {
  TripletSparseMatrix m(nr, nc, nnz);
  for (int i = 0; i < nnz; ++i) { m.mutable_rows()[i] = rows[i]; m.mutable_cols()[i] = cols[i]; m.mutable_values()[i] = v[i]; }
  m.set_num_nonzeros(nnz);
  apply(m, op, x, y);
}
void w_triplet_crs(int transpose, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, double* tv, int* trows, int* tcols) {
  TripletSparseMatrix m(nr, nc, nnz);
  for (int i = 0; i < nnz; ++i) { m.mutable_rows()[i] = rows[i]; m.mutable_cols()[i] = cols[i]; m.mutable_values()[i] = v[i]; }
  m.set_num_nonzeros(nnz);
  auto c = transpose ? CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(m) : CompressedRowSparseMatrix::FromTripletSparseMatrix(m);
  crs_out(*c, tv, trows, tcols);
}
// op 0: append rows, 1: append columns, 2: resize
void w_triplet_edit(int op, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, int nr2, int nc2, int nnz2, const int* rows2, const int* cols2, const double* v2, double* y) {
  TripletSparseMatrix m(nr, nc, nnz);
  for (int i = 0; i < nnz; ++i) { m.mutable_rows()[i] = rows[i]; m.mutable_cols()[i] = cols[i]; m.mutable_values()[i] = v[i]; }
  m.set_num_nonzeros(nnz);
  if (op < 2) {
    TripletSparseMatrix b(nr2, nc2, nnz2);
    for (int i = 0; i < nnz2; ++i) { b.mutable_rows()[i] = rows2[i]; b.mutable_cols()[i] = cols2[i]; b.mutable_values()[i] = v2[i]; }
    b.set_num_nonzeros(nnz2);
    if (op == 0) m.AppendRows(b); else m.AppendCols(b);
  } else {
    m.Resize(nr2, nc2);
  }
  TripletSparseMatrix copy(m);
  dense(copy, y);
}
void w_dense(int op, int nr, int nc, int nnz, const int* rows, const int* cols, const double* v, const double* x, double* y) {
  TripletSparseMatrix t(nr, nc, nnz);
  for (int i = 0; i < nnz; ++i) { t.mutable_rows()[i] = rows[i]; t.mutable_cols()[i] = cols[i]; t.mutable_values()[i] = v[i]; }
  t.set_num_nonzeros(nnz);
  DenseSparseMatrix m(t);
  apply(m, op, x, y);
}
void w_bsm(int op, int transpose, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v, const double* x, double* y) {
  auto m = blocks(nr, rs, nc, cs, count, cell, v);
  if (transpose) m->AddTransposeBlockStructure();
  apply(*m, op, x, y);
}
// how 0: to CRS, 1: to CRS of the transpose, 2: the same through update
void w_bsm_crs(int how, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v, const double* w, int nnz, double* tv, int* trows, int* tcols) {
  auto m = blocks(nr, rs, nc, cs, count, cell, v);
  auto c = how & 1 ? m->ToCompressedRowSparseMatrixTranspose() : m->ToCompressedRowSparseMatrix();
  if (how & 2) {
    for (int i = 0; i < nnz; ++i) m->mutable_values()[i] = w[i];
    if (how & 1) m->UpdateCompressedRowSparseMatrixTranspose(c.get()); else m->UpdateCompressedRowSparseMatrix(c.get());
  }
  crs_out(*c, tv, trows, tcols);
}
// edit 0: to triplet, 1: append m again, 2: delete the last row block, 3: append a block diagonal and delete it
void w_bsm_edit(int edit, int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v, const double* d, double* y) {
  auto m = blocks(nr, rs, nc, cs, count, cell, v);
  if (edit == 0) { TripletSparseMatrix t; m->ToTripletSparseMatrix(&t); dense(t, y); return; }
  if (edit == 1) { auto o = blocks(nr, rs, nc, cs, count, cell, d); m->AppendRows(*o); }
  if (edit == 2) m->DeleteRowBlocks(1);
  if (edit >= 3) { auto o = BlockSparseMatrix::CreateDiagonalMatrix(d, m->block_structure()->cols); m->AppendRows(*o); if (edit == 4) m->DeleteRowBlocks(nc); }
  dense(*m, y);
}
}
