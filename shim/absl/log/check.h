// Stand-in for absl/log/check.h (Abseil >= 20240116 is not in this sandbox).
// CHECK* keep their meaning: a false condition ends the program.  The streamed
// message is dropped.  The failing branch calls verif_check_failed(), which is
// the only thing the verifier sees: reaching it is a proof obligation failure.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define VERIF_CHECK_IMPL(cond) \
  switch (0)                   \
  case 0:                      \
  default:                     \
    if (cond)                  \
      ;                        \
    else                       \
      ::verif_shim::Fatal(#cond, __FILE__, __LINE__)
#define CHECK(c) VERIF_CHECK_IMPL((c))
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) VERIF_CHECK_IMPL((a) == (b))
#define CHECK_NE(a, b) VERIF_CHECK_IMPL((a) != (b))
#define CHECK_LT(a, b) VERIF_CHECK_IMPL((a) < (b))
#define CHECK_LE(a, b) VERIF_CHECK_IMPL((a) <= (b))
#define CHECK_GT(a, b) VERIF_CHECK_IMPL((a) > (b))
#define CHECK_GE(a, b) VERIF_CHECK_IMPL((a) >= (b))
#ifdef VERIF_DCHECKS
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#else
#define VERIF_DCHECK_NOP(cond) \
  while (false && (cond)) ::verif_shim::NullStream()
#define DCHECK(c) VERIF_DCHECK_NOP((c))
#define DCHECK_EQ(a, b) VERIF_DCHECK_NOP((a) == (b))
#define DCHECK_NE(a, b) VERIF_DCHECK_NOP((a) != (b))
#define DCHECK_LT(a, b) VERIF_DCHECK_NOP((a) < (b))
#define DCHECK_LE(a, b) VERIF_DCHECK_NOP((a) <= (b))
#define DCHECK_GT(a, b) VERIF_DCHECK_NOP((a) > (b))
#define DCHECK_GE(a, b) VERIF_DCHECK_NOP((a) >= (b))
#endif
#endif
