#ifndef VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H
#define VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H
#include <utility>
#include "absl/log/check.h"
namespace verif_shim {
template <typename T> T DieIfNull(T &&t) { CHECK(t != nullptr); return std::forward<T>(t); }
}
#define ABSL_DIE_IF_NULL(v) ::verif_shim::DieIfNull(v)
#endif
