// Minimal stand-in for KAssert (git submodule external/kassert, empty in this sandbox).
// Only the part of the interface that KaMinPar uses: KASSERT(cond[, msg[, level]]) and KASSERT_ENABLED.
// A failed assertion is reported to the harness (kv_assert_failed), never ignored.
#pragma once
#include <sstream>
#include <string>

#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 10
#endif

#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)

extern "C" [[noreturn]] void
kv_assert_failed(const char *expr, const char *file, int line, const char *msg);

namespace kassert::assert {
constexpr int kthrow = 0;
constexpr int light = 10;
constexpr int normal = 30;
constexpr int heavy = 40;
} // namespace kassert::assert

#define KV_KASSERT_3(cond, msg, level)                                                             \
  do {                                                                                             \
    if constexpr (KASSERT_ENABLED(level)) {                                                        \
      if (!(cond)) [[unlikely]] {                                                                  \
        std::ostringstream kv_oss_;                                                                \
        kv_oss_ << msg;                                                                            \
        kv_assert_failed(#cond, __FILE__, __LINE__, kv_oss_.str().c_str());                        \
      }                                                                                            \
    }                                                                                              \
  } while (false)
#define KV_KASSERT_2(cond, msg) KV_KASSERT_3(cond, msg, ::kassert::assert::normal)
#define KV_KASSERT_1(cond) KV_KASSERT_3(cond, "", ::kassert::assert::normal)
#define KV_KASSERT_SEL(_1, _2, _3, NAME, ...) NAME
#define KASSERT(...)                                                                               \
  KV_KASSERT_SEL(__VA_ARGS__, KV_KASSERT_3, KV_KASSERT_2, KV_KASSERT_1, _dummy)(__VA_ARGS__)
