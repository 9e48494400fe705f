#include "ceres/small_blas.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres::internal;
using rac::close; using rac::ok;
static std::vector<double> some(int n) { std::vector<double> v(n); for (auto& x : v) x = rac::integer(-8, 8); return v; }
template <int RA, int CA, int RB, int CB, int OP, int T = -1>
static void mm(bool t_) {
  const bool t = t_;
  int ra = RA == -1 ? rac::integer(1, 17) : RA, ca = CA == -1 ? rac::integer(1, 17) : CA, cb = CB == -1 ? rac::integer(1, 17) : CB, rb = t ? ra : ca;
  if (RB != -1 && RB != rb) return;
  int r0 = rac::integer(0, 3), c0 = rac::integer(0, 3), rc = t ? ca : ra, rs = r0 + rc + rac::integer(0, 2), cs = c0 + cb + rac::integer(0, 3);
  rac::note("ra", ra); rac::note("ca", ca); rac::note("cb", cb); rac::note("transposed", t); rac::note("op", OP); rac::note("at", r0 * 10 + c0);
  auto A = some(ra * ca), B = some(rb * cb), C = some(rs * cs), D = C;
  for (int i = 0; i < rc; ++i) for (int j = 0; j < cb; ++j) {
    double s = 0;
    for (int k = 0; k < rb; ++k) s += (t ? A[k * ca + i] : A[i * ca + k]) * B[k * cb + j];
    double& x = D[(r0 + i) * cs + c0 + j];
    x = OP > 0 ? x + s : OP < 0 ? x - s : s;
  }
  auto E = C;
  if (T == 1 || (T < 0 && t)) { if constexpr (T != 0) { MatrixTransposeMatrixMultiply<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), rb, cb, C.data(), r0, c0, rs, cs); MatrixTransposeMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), rb, cb, E.data(), r0, c0, rs, cs); } }
  else if constexpr (T != 1) { MatrixMatrixMultiply<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), rb, cb, C.data(), r0, c0, rs, cs); MatrixMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), rb, cb, E.data(), r0, c0, rs, cs); }
  ok("product and frame", C == D); ok("naive product and frame", E == D);
}
template <int RA, int CA, int OP>
static void mv(bool t) {
  int ra = RA == -1 ? rac::integer(1, 33) : RA, ca = CA == -1 ? rac::integer(1, 33) : CA, nb = t ? ra : ca, nc = t ? ca : ra;
  rac::note("ra", ra); rac::note("ca", ca); rac::note("transposed", t); rac::note("op", OP);
  auto A = some(ra * ca), b = some(nb), c = some(nc + 2), d = c;
  for (int i = 0; i < nc; ++i) { double s = 0; for (int k = 0; k < nb; ++k) s += (t ? A[k * ca + i] : A[i * ca + k]) * b[k]; d[i] = OP > 0 ? d[i] + s : OP < 0 ? d[i] - s : s; }
  if (t) MatrixTransposeVectorMultiply<RA, CA, OP>(A.data(), ra, ca, b.data(), c.data()); else MatrixVectorMultiply<RA, CA, OP>(A.data(), ra, ca, b.data(), c.data());
  ok("product and frame", c == d);
}
template <int OP> static void all() {
  bool t = rac::coin();
  switch (rac::integer(0, 9)) {
    case 0: mm<2, 3, -1, -1, OP>(t); break;
    case 1: mm<2, 3, 3, 9, OP, 0>(false); break;
    case 2: mm<2, 3, 2, 9, OP, 1>(true); break;
    case 3: mm<2, -1, 2, -1, OP, 1>(true); break;
    case 4: mm<4, 4, 4, 4, OP>(t); break;
    case 5: mm<-1, 3, -1, 6, OP>(t); break;
    case 6: mm<3, 3, 3, 1, OP>(t); break;
    default: mm<-1, -1, -1, -1, OP>(t);
  }
  switch (rac::integer(0, 6)) {
    case 0: mv<2, 3, OP>(t); break;
    case 1: mv<2, 9, OP>(t); break;
    case 2: mv<4, -1, OP>(t); break;
    case 3: mv<-1, 6, OP>(t); break;
    default: mv<-1, -1, OP>(t);
  }
}
int main(int c, char** v) {
  rac::init(c, v);
  rac::group("add", 4000, all<1>);
  rac::group("assign", 4000, all<0>);
  rac::group("subtract", 4000, all<-1>);
  return rac::finish();
}
