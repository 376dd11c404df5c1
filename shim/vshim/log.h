#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include <utility>
#include "verif.h"
#define V_STR2(x) #x
#define V_STR(x) V_STR2(x)
#define V_LOC __FILE_NAME__
namespace vlog {
struct Null {
  template <class T> const Null& operator<<(T&&) const { return *this; }
};
struct Fatal {
  [[noreturn]] explicit Fatal(const char* m) { verif_fail(m); }
  template <class T> const Fatal& operator<<(T&&) const { return *this; }
};
struct Void {
  void operator&(const Null&) {}
  void operator&(const Fatal&) {}
};
}  // namespace vlog
#define V_CHECK_IMPL(c, text) \
  __builtin_expect(static_cast<bool>(c), 1) ? (void)0 : ::vlog::Void() & ::vlog::Fatal("CHECK failed: " text)
// TensorFlow's logging macros (REVERB_CHECK_OK expands to CHECK_EQ).
#define CHECK(c) V_CHECK_IMPL(c, #c)
#define CHECK_EQ(a, b) V_CHECK_IMPL((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) V_CHECK_IMPL((a) != (b), #a " != " #b)
#define CHECK_LE(a, b) V_CHECK_IMPL((a) <= (b), #a " <= " #b)
#define CHECK_LT(a, b) V_CHECK_IMPL((a) < (b), #a " < " #b)
#define CHECK_GE(a, b) V_CHECK_IMPL((a) >= (b), #a " >= " #b)
#define CHECK_GT(a, b) V_CHECK_IMPL((a) > (b), #a " > " #b)
#define DCHECK(c) V_CHECK_IMPL(true || (c), #c)
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define V_SEV_FATAL ::vlog::Fatal("fatal log (" V_LOC ")")
#define V_SEV_QFATAL ::vlog::Fatal("fatal log (" V_LOC ")")
#define V_SEV_INFO ::vlog::Null()
#define V_SEV_WARNING ::vlog::Null()
#define V_SEV_ERROR ::vlog::Null()
#define LOG(l) V_SEV_##l
#define VLOG(l) ::vlog::Null()
#define LOG_IF(l, c) !(c) ? (void)0 : ::vlog::Void() & V_SEV_##l
#define LOG_FIRST_N(l, n) ::vlog::Null()
#define LOG_EVERY_N(l, n) ::vlog::Null()
#endif
