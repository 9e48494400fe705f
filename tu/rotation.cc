#include "ceres/rotation.h"
#include "ceres/internal/euler_angles.h"
using namespace ceres;
typedef CeresQuaternionOrder C;
typedef EigenQuaternionOrder E;
#define ORD(N, O)                                                                                        \
  void w_aa2q_##N(const double* a, double* q) { AngleAxisToQuaternion<O>(a, q); }                        \
  void w_q2aa_##N(const double* q, double* a) { QuaternionToAngleAxis<O>(q, a); }                        \
  void w_R2q_##N(const double* R, double* q) { RotationMatrixToQuaternion<O>(R, q); }                    \
  void w_R2q_rm_##N(const double* R, double* q) {                                                        \
    RotationMatrixToQuaternion<O>(RowMajorAdapter3x3(R), q);                                             \
  }                                                                                                      \
  void w_q2sR_##N(const double* q, double* R) { QuaternionToScaledRotation<O>(q, R); }                   \
  void w_q2sR_cm_##N(const double* q, double* R) {                                                       \
    QuaternionToScaledRotation<O>(q, ColumnMajorAdapter3x3(R));                                          \
  }                                                                                                      \
  void w_q2R_##N(const double* q, double* R) { QuaternionToRotation<O>(q, R); }                          \
  void w_q2R_cm_##N(const double* q, double* R) { QuaternionToRotation<O>(q, ColumnMajorAdapter3x3(R)); }\
  void w_uqrot_##N(const double* q, const double* p, double* r) { UnitQuaternionRotatePoint<O>(q, p, r); } \
  void w_qrot_##N(const double* q, const double* p, double* r) { QuaternionRotatePoint<O>(q, p, r); }    \
  void w_qprod_##N(const double* z, const double* w, double* r) { QuaternionProduct<O>(z, w, r); }       \
  void w_qconj_##N(const double* z, double* r) { QuaternionConjugate<O>(z, r); }
extern "C" {
ORD(c, C)
ORD(e, E)
void w_R2aa(const double* R, double* a) { RotationMatrixToAngleAxis(R, a); }
void w_R2aa_rm(const double* R, double* a) { RotationMatrixToAngleAxis(RowMajorAdapter3x3(R), a); }
void w_aa2R(const double* a, double* R) { AngleAxisToRotationMatrix(a, R); }
void w_aa2R_rm(const double* a, double* R) { AngleAxisToRotationMatrix(a, RowMajorAdapter3x3(R)); }
void w_aarot(const double* a, const double* p, double* r) { AngleAxisRotatePoint(a, p, r); }
void w_cross(const double* a, const double* b, double* r) { CrossProduct(a, b, r); }
double w_dot(const double* a, const double* b) { return DotProduct(a, b); }
void w_eulerdeg(const double* e, double* R) { EulerAnglesToRotationMatrix(e, 3, R); }
#define EU(S)                                                                            \
  void w_eu_##S(const double* e, double* R) { EulerAnglesToRotation<S>(e, R); }           \
  void w_eucm_##S(const double* e, double* R) { EulerAnglesToRotation<S>(e, ColumnMajorAdapter3x3(R)); } \
  void w_ue_##S(const double* R, double* e) { RotationMatrixToEulerAngles<S>(R, e); }
EU(ExtrinsicXYZ) EU(ExtrinsicXYX) EU(ExtrinsicXZY) EU(ExtrinsicXZX) EU(ExtrinsicYZX) EU(ExtrinsicYZY)
EU(ExtrinsicYXZ) EU(ExtrinsicYXY) EU(ExtrinsicZXY) EU(ExtrinsicZXZ) EU(ExtrinsicZYX) EU(ExtrinsicZYZ)
EU(IntrinsicXYZ) EU(IntrinsicXYX) EU(IntrinsicXZY) EU(IntrinsicXZX) EU(IntrinsicYZX) EU(IntrinsicYZY)
EU(IntrinsicYXZ) EU(IntrinsicYXY) EU(IntrinsicZXY) EU(IntrinsicZXZ) EU(IntrinsicZYX) EU(IntrinsicZYZ)
}
