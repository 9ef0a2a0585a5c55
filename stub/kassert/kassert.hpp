// Stand-in for the (absent) kassert submodule, for static analysis only.
// Every assertion becomes one call of ::kassert_stub::check with the condition
// as its first operand, so that the extractor sees the condition unchanged.
#pragma once
#include <iostream>
#include <sstream>
#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 60
#endif
#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)
namespace kassert_stub {
struct Msg {
  template <class T> Msg &operator<<(T &&) { return *this; }
  Msg &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
void check(bool cond, int level);
} // namespace kassert_stub
#define KA_GET(_1, _2, _3, NAME, ...) NAME
#define KASSERT_1(e) KASSERT_3(e, "", 30)
#define KASSERT_2(e, m) KASSERT_3(e, m, 30)
#define KASSERT_3(e, m, l)                                                                         \
  do {                                                                                             \
    ::kassert_stub::check(static_cast<bool>(e), (l));                                              \
    if (false) {                                                                                   \
      ::kassert_stub::Msg() << m;                                                                  \
    }                                                                                              \
  } while (false)
#define KASSERT(...) KA_GET(__VA_ARGS__, KASSERT_3, KASSERT_2, KASSERT_1)(__VA_ARGS__)
#define THROWING_KASSERT(...) KASSERT(__VA_ARGS__)
