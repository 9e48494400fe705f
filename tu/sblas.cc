#include "ceres/small_blas.h"
using namespace ceres::internal;
template <int RA, int CA, int RB, int CB, int T = -1>
static void mm(int t, int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) {
  if (T == 1 || (T < 0 && t)) { if constexpr (T != 0) {
    if (op > 0) MatrixTransposeMatrixMultiply<RA, CA, RB, CB, 1>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
    else if (op < 0) MatrixTransposeMatrixMultiply<RA, CA, RB, CB, -1>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
    else MatrixTransposeMatrixMultiply<RA, CA, RB, CB, 0>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
  } } else if constexpr (T != 1) {
    if (op > 0) MatrixMatrixMultiply<RA, CA, RB, CB, 1>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
    else if (op < 0) MatrixMatrixMultiply<RA, CA, RB, CB, -1>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
    else MatrixMatrixMultiply<RA, CA, RB, CB, 0>(A, ra, ca, B, rb, cb, C, r0, c0, rs, cs);
  }
}
template <int RA, int CA>
static void mv(int t, int op, const double* A, int ra, int ca, const double* b, double* c) {
  if (t) {
    if (op > 0) MatrixTransposeVectorMultiply<RA, CA, 1>(A, ra, ca, b, c);
    else if (op < 0) MatrixTransposeVectorMultiply<RA, CA, -1>(A, ra, ca, b, c);
    else MatrixTransposeVectorMultiply<RA, CA, 0>(A, ra, ca, b, c);
  } else {
    if (op > 0) MatrixVectorMultiply<RA, CA, 1>(A, ra, ca, b, c);
    else if (op < 0) MatrixVectorMultiply<RA, CA, -1>(A, ra, ca, b, c);
    else MatrixVectorMultiply<RA, CA, 0>(A, ra, ca, b, c);
  }
}
constexpr int D = Eigen::Dynamic;
extern "C" {
void w_mm(int t, int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) { mm<D, D, D, D>(t, op, A, ra, ca, B, rb, cb, C, r0, c0, rs, cs); }
// partially static
void w_mm_2x(int t, int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) { mm<2, D, D, D>(t, op, A, ra, ca, B, rb, cb, C, r0, c0, rs, cs); }
void w_mm_233(int t, int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) { mm<2, 3, D, 3>(t, op, A, ra, ca, B, rb, cb, C, r0, c0, rs, cs); }
// fully static
void w_mm_s233(int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) { mm<2, 3, 3, 4, 0>(0, op, A, ra, ca, B, rb, cb, C, r0, c0, rs, cs); }
void w_mm_t232(int op, const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int r0, int c0, int rs, int cs) { mm<2, 3, 2, 4, 1>(1, op, A, ra, ca, B, rb, cb, C, r0, c0, rs, cs); }
void w_mv(int t, int op, const double* A, int ra, int ca, const double* b, double* c) { mv<D, D>(t, op, A, ra, ca, b, c); }
void w_mv_23(int t, int op, const double* A, int ra, int ca, const double* b, double* c) { mv<2, 3>(t, op, A, ra, ca, b, c); }
void w_mv_39(int t, int op, const double* A, int ra, int ca, const double* b, double* c) { mv<3, 9>(t, op, A, ra, ca, b, c); }
void w_mv_2x(int t, int op, const double* A, int ra, int ca, const double* b, double* c) { mv<2, D>(t, op, A, ra, ca, b, c); }
}
