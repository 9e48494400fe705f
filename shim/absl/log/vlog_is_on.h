#ifndef VERIF_SHIM_VLOG_IS_ON_H_
#define VERIF_SHIM_VLOG_IS_ON_H_
#define VLOG_IS_ON(n) false
#endif
