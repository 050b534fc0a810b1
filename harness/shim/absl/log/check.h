#pragma once

#include "absl/log/log.h"

#define CHECK(condition)                               \
  switch (0)                                           \
  case 0:                                              \
  default:                                             \
    (condition) ? (void)0                              \
                : ::verif::Voidify() && VERIF_FATAL("CHECK " #condition)

#define VERIF_CHECK_OP(op, a, b)                                     \
  switch (0)                                                         \
  case 0:                                                            \
  default:                                                           \
    ((a)op(b)) ? (void)0                                             \
               : ::verif::Voidify() && VERIF_FATAL("CHECK " #a " " #op " " #b)

#define CHECK_EQ(a, b) VERIF_CHECK_OP(==, a, b)
#define CHECK_NE(a, b) VERIF_CHECK_OP(!=, a, b)
#define CHECK_LT(a, b) VERIF_CHECK_OP(<, a, b)
#define CHECK_LE(a, b) VERIF_CHECK_OP(<=, a, b)
#define CHECK_GT(a, b) VERIF_CHECK_OP(>, a, b)
#define CHECK_GE(a, b) VERIF_CHECK_OP(>=, a, b)
#define CHECK_STREQ(a, b) CHECK(std::string_view(a) == std::string_view(b))
#define PCHECK(condition) CHECK(condition)
#define QCHECK(condition) CHECK(condition)

namespace verif {
inline bool IsOk(absl::Status const& s) { return s.ok(); }
template<typename T>
bool IsOk(absl::StatusOr<T> const& s) { return s.ok(); }
}  // namespace verif

#define CHECK_OK(expr) CHECK(::verif::IsOk(expr))

// The harnesses are built like the release, with NDEBUG, unless they ask for
// the debug checks with VERIF_DCHECK.
#ifdef VERIF_DCHECK
#define VERIF_DCHECK_ENABLED true
#else
#define VERIF_DCHECK_ENABLED false
#endif
#define VERIF_D(c) \
  while (VERIF_DCHECK_ENABLED && false) c
#ifdef VERIF_DCHECK
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(a) CHECK_OK(a)
#else
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_OK(a) while (false) CHECK_OK(a)
#endif
