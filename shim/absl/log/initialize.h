#ifndef VERIF_SHIM_INIT_H_
#define VERIF_SHIM_INIT_H_
namespace absl { inline void InitializeLog() {} }
#endif
