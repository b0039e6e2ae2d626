#ifndef VERIF_COMPAT_STATUS_MACROS_H_
#define VERIF_COMPAT_STATUS_MACROS_H_
#include "absl/status/status.h"
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define ABSL_ASSIGN_OR_RETURN(lhs, e)                       \
  auto VERIF_CAT(_so, __LINE__) = (e);                      \
  if (!VERIF_CAT(_so, __LINE__).ok()) return VERIF_CAT(_so, __LINE__).status(); \
  lhs = std::move(VERIF_CAT(_so, __LINE__)).value()
#define ABSL_RETURN_IF_ERROR(e) do { auto _s = (e); if (!_s.ok()) return _s; } while (0)
#endif
