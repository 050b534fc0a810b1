#pragma once

#include <utility>

#include "absl/log/check.h"

namespace verif {
template<typename T>
T DieIfNull(T&& t) {
  CHECK(t != nullptr) << "ABSL_DIE_IF_NULL";
  return std::forward<T>(t);
}
}  // namespace verif

#define ABSL_DIE_IF_NULL(val) ::verif::DieIfNull(val)
