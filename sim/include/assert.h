// Stand-in for <assert.h>: a failed assertion aborts as usual, except inside
// sim::AssertThrows, where it can be observed and the run goes on.
#undef assert
#ifdef NDEBUG
#define assert(...) (static_cast<void>(0))
#else
#define assert(...)                                                            \
  (static_cast<bool>(__VA_ARGS__)                                              \
       ? static_cast<void>(0)                                                  \
       : ::sim_assert_failed(#__VA_ARGS__, __FILE__, __LINE__,                 \
                             __PRETTY_FUNCTION__))
#endif
#ifndef SIM_ASSERT_H
#define SIM_ASSERT_H
#ifdef __cplusplus
[[noreturn]] void sim_assert_failed(const char *expr, const char *file,
                                    int line, const char *func);
#endif
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
#endif
