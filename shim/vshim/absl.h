// Models of the parts of abseil the sources use.  Synchronisation and time go
// through the scheduler in rt/vsched.h, randomness through symbolic inputs;
// everything else is a small conventional implementation.
#ifndef VERIF_SHIM_ABSL_H_
#define VERIF_SHIM_ABSL_H_
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <unistd.h>

#include "verif.h"
#include "vsched.h"

#define ABSL_GUARDED_BY(...)
#define ABSL_PT_GUARDED_BY(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_LOCK_RETURNED(...)
#define ABSL_LOCKABLE
#define ABSL_SCOPED_LOCKABLE
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_ASSERT_EXCLUSIVE_LOCK(...)
#define ABSL_ASSERT_SHARED_LOCK(...)
#define ABSL_ACQUIRED_BEFORE(...)
#define ABSL_ACQUIRED_AFTER(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_TS_UNCHECKED(x) x
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_COLD
#define ABSL_ATTRIBUTE_HOT
#define ABSL_MUST_USE_RESULT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_DEPRECATED(x)
#define ABSL_CONST_INIT
#define ABSL_PREDICT_TRUE(x) (static_cast<bool>(x))
#define ABSL_PREDICT_FALSE(x) (static_cast<bool>(x))
#define ABSL_ASSERT(x) ((void)0)
#define ABSL_HARDENING_ASSERT(x) verif_assert_(static_cast<bool>(x), "hardening assertion")
#define ABSL_CACHELINE_SIZE 64
#define ABSL_CACHELINE_ALIGNED
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_RAW_LOG(...) ((void)0)
#define ABSL_RAW_CHECK(c, m) verif_assert_(static_cast<bool>(c), "RAW_CHECK failed")
#define ABSL_FLAG(T, name, def, help) T FLAGS_##name = def
#define ABSL_DECLARE_FLAG(T, name) extern T FLAGS_##name
#define ABSL_NAMESPACE_BEGIN
#define ABSL_NAMESPACE_END
#define ABSL_INTERNAL_ASSUME(x) ((void)0)
#define ABSL_UNREACHABLE() verif_fail("ABSL_UNREACHABLE reached")

namespace absl {
// ------------------------------------------------------------- basic types
using string_view = std::string_view;
template <class T> using optional = std::optional<T>;
using std::make_optional;
using std::nullopt;
using nullopt_t = std::nullopt_t;
using std::in_place;
using in_place_t = std::in_place_t;
using std::make_unique;
template <class... T> using variant = std::variant<T...>;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::visit;
using monostate = std::monostate;
template <class... T> using void_t = std::void_t<T...>;
template <bool B, class T = void> using enable_if_t = std::enable_if_t<B, T>;
template <class T> using remove_reference_t = std::remove_reference_t<T>;
template <class T> using remove_cv_t = std::remove_cv_t<T>;
template <class T> using decay_t = std::decay_t<T>;
template <bool B, class T, class F> using conditional_t = std::conditional_t<B, T, F>;
template <class T> using remove_cvref_t = std::remove_cv_t<std::remove_reference_t<T>>;
using std::conjunction;
using std::disjunction;
using std::negation;
using std::apply;
using std::exchange;
template <size_t... I> using index_sequence = std::index_sequence<I...>;
template <class... T> using index_sequence_for = std::index_sequence_for<T...>;
template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class T> std::shared_ptr<T> ShareUniquePtr(std::unique_ptr<T> p) { return p ? std::shared_ptr<T>(std::move(p)) : std::shared_ptr<T>(); }
template <class To, class From> To implicit_cast(From&& f) { return std::forward<From>(f); }
template <class To, class From> To bit_cast(const From& f) { To t; memcpy(&t, &f, sizeof t); return t; }
template <class T> T& GetFlagRef(T& f) { return f; }
template <class T> T GetFlag(const T& f) { return f; }
template <class T, class V> void SetFlag(T* f, const V& v) { *f = v; }

template <class F>
class Cleanup {
 public:
  explicit Cleanup(F f) : f_(std::move(f)), on_(true) {}
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { if (on_) f_(); on_ = false; }
 private:
  F f_;
  bool on_;
};
template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }

// bind_front
template <class F, class... B>
class FrontBinder {
 public:
  template <class G, class... A>
  explicit FrontBinder(int, G&& f, A&&... a) : f_(std::forward<G>(f)), b_(std::forward<A>(a)...) {}
  template <class... A>
  auto operator()(A&&... a) {
    return call(std::make_index_sequence<sizeof...(B)>(), std::forward<A>(a)...);
  }
  template <class... A>
  auto operator()(A&&... a) const {
    return const_cast<FrontBinder*>(this)->call(std::make_index_sequence<sizeof...(B)>(), std::forward<A>(a)...);
  }
 private:
  template <size_t... I, class... A>
  auto call(std::index_sequence<I...>, A&&... a) {
    return std::invoke(f_, std::get<I>(b_)..., std::forward<A>(a)...);
  }
  F f_;
  std::tuple<B...> b_;
};
template <class F, class... A>
FrontBinder<std::decay_t<F>, std::decay_t<A>...> bind_front(F&& f, A&&... a) {
  return FrontBinder<std::decay_t<F>, std::decay_t<A>...>(0, std::forward<F>(f), std::forward<A>(a)...);
}
template <class S> class FunctionRef;
template <class R, class... A>
class FunctionRef<R(A...)> {
 public:
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, FunctionRef>::value>>
  FunctionRef(const F& f) : p_((const void*)std::addressof(f)), c_([](const void* p, A... a) -> R { return (*(F*)p)(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(p_, std::forward<A>(a)...); }
 private:
  const void* p_;
  R (*c_)(const void*, A...);
};
template <class S> class AnyInvocable;
template <class R, class... A>
class AnyInvocable<R(A...)> {
  struct B { virtual ~B() {} virtual R call(A... a) = 0; };
  template <class F> struct I : B { F f; explicit I(F g) : f(std::move(g)) {} R call(A... a) override { return std::invoke(f, std::forward<A>(a)...); } };
  std::unique_ptr<B> p_;
 public:
  AnyInvocable() {}
  AnyInvocable(std::nullptr_t) {}
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, AnyInvocable>::value>>
  AnyInvocable(F&& f) : p_(new I<std::decay_t<F>>(std::forward<F>(f))) {}
  R operator()(A... a) { return p_->call(std::forward<A>(a)...); }
  explicit operator bool() const { return p_ != nullptr; }
};
template <class R, class... A> class AnyInvocable<R(A...) &&> : public AnyInvocable<R(A...)> { public: using AnyInvocable<R(A...)>::AnyInvocable; };
template <class R, class... A> class AnyInvocable<R(A...) const> : public AnyInvocable<R(A...)> { public: using AnyInvocable<R(A...)>::AnyInvocable; };

struct once_flag { bool done = false; };
template <class F, class... A>
void call_once(once_flag& o, F&& f, A&&... a) {
  if (o.done) return;
  o.done = true;
  std::invoke(std::forward<F>(f), std::forward<A>(a)...);
}

// ------------------------------------------------------------- uint128
class uint128 {
 public:
  constexpr uint128() : hi_(0), lo_(0) {}
  constexpr uint128(uint64_t v) : hi_(0), lo_(v) {}
  constexpr uint128(int v) : hi_(v < 0 ? ~0ull : 0), lo_((uint64_t)(int64_t)v) {}
  constexpr uint128(uint64_t hi, uint64_t lo) : hi_(hi), lo_(lo) {}
  constexpr uint64_t hi() const { return hi_; }
  constexpr uint64_t lo() const { return lo_; }
  explicit operator uint64_t() const { return lo_; }
  explicit operator bool() const { return hi_ | lo_; }
  friend bool operator==(uint128 a, uint128 b) { return (a.hi_ == b.hi_) & (a.lo_ == b.lo_); }
  friend bool operator!=(uint128 a, uint128 b) { return !(a == b); }
  friend bool operator<(uint128 a, uint128 b) { return a.hi_ < b.hi_ || (a.hi_ == b.hi_ && a.lo_ < b.lo_); }
  friend bool operator>(uint128 a, uint128 b) { return b < a; }
  friend bool operator<=(uint128 a, uint128 b) { return !(b < a); }
  friend bool operator>=(uint128 a, uint128 b) { return !(a < b); }
  friend uint128 operator+(uint128 a, uint128 b) { uint64_t l = a.lo_ + b.lo_; return uint128(a.hi_ + b.hi_ + (l < a.lo_), l); }
  friend uint128 operator-(uint128 a, uint128 b) { return uint128(a.hi_ - b.hi_ - (a.lo_ < b.lo_), a.lo_ - b.lo_); }
  friend uint128 operator|(uint128 a, uint128 b) { return uint128(a.hi_ | b.hi_, a.lo_ | b.lo_); }
  friend uint128 operator&(uint128 a, uint128 b) { return uint128(a.hi_ & b.hi_, a.lo_ & b.lo_); }
  friend uint128 operator^(uint128 a, uint128 b) { return uint128(a.hi_ ^ b.hi_, a.lo_ ^ b.lo_); }
  friend uint128 operator<<(uint128 a, int s) { if (s == 0) return a; if (s >= 64) return uint128(a.lo_ << (s - 64), 0); return uint128((a.hi_ << s) | (a.lo_ >> (64 - s)), a.lo_ << s); }
  friend uint128 operator>>(uint128 a, int s) { if (s == 0) return a; if (s >= 64) return uint128(0, a.hi_ >> (s - 64)); return uint128(a.hi_ >> s, (a.lo_ >> s) | (a.hi_ << (64 - s))); }
  uint128& operator+=(uint128 b) { return *this = *this + b; }
  uint128& operator++() { return *this = *this + uint128(1); }
 private:
  uint64_t hi_, lo_;
};
inline uint128 MakeUint128(uint64_t hi, uint64_t lo) { return uint128(hi, lo); }
inline uint64_t Uint128High64(uint128 v) { return v.hi(); }
inline uint64_t Uint128Low64(uint128 v) { return v.lo(); }

// ------------------------------------------------------------- Span
template <class T>
class Span {
 public:
  using value_type = std::remove_cv_t<T>;
  using element_type = T;
  using size_type = size_t;
  using iterator = T*;
  using const_iterator = const T*;
  using reference = T&;
  using const_reference = const T&;
  using pointer = T*;
  static const size_t npos = ~(size_t)0;
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class C, class = std::enable_if_t<!std::is_same<std::decay_t<C>, Span>::value && std::is_convertible<decltype(std::declval<C&>().data()), T*>::value>,
            class = decltype(std::declval<C&>().size())>
  constexpr Span(C&& c) : p_(const_cast<T*>(c.data())), n_(c.size()) {}
  template <class U = T, class = std::enable_if_t<std::is_const<U>::value>>
  Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  T* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  T& operator[](size_t i) const { if (i >= n_) verif_fail("Span index out of range"); return p_[i]; }
  T& at(size_t i) const { return (*this)[i]; }
  T& front() const { return (*this)[0]; }
  T& back() const { return (*this)[n_ - 1]; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  const T* cbegin() const { return p_; }
  const T* cend() const { return p_ + n_; }
  std::reverse_iterator<T*> rbegin() const { return std::reverse_iterator<T*>(end()); }
  std::reverse_iterator<T*> rend() const { return std::reverse_iterator<T*>(begin()); }
  Span subspan(size_t pos = 0, size_t len = npos) const {
    if (pos > n_) verif_fail("Span::subspan out of range");
    return Span(p_ + pos, len < n_ - pos ? len : n_ - pos);
  }
  Span first(size_t n) const { return subspan(0, n); }
  Span last(size_t n) const { return subspan(n_ - n, n); }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
 private:
  T* p_;
  size_t n_;
};
template <class T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T> Span<const T> MakeConstSpan(const T* p, size_t n) { return Span<const T>(p, n); }
template <class C> auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }

template <class T, size_t N = 0, class A = std::allocator<T>>
class FixedArray {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  explicit FixedArray(size_t n) : n_(n), p_(new T[n]()) {}
  FixedArray(size_t n, const T& v) : n_(n), p_(new T[n]()) { std::fill(begin(), end(), v); }
  FixedArray(std::initializer_list<T> l) : FixedArray(l.begin(), l.end()) {}
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  FixedArray(It a, It b) : n_(std::distance(a, b)), p_(new T[n_]()) { std::copy(a, b, p_); }
  FixedArray(const FixedArray& o) : FixedArray(o.begin(), o.end()) {}
  ~FixedArray() { delete[] p_; }
  size_t size() const { return n_; }
  bool empty() const { return !n_; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  T& operator[](size_t i) { if (i >= n_) verif_fail("FixedArray index out of range"); return p_[i]; }
  const T& operator[](size_t i) const { if (i >= n_) verif_fail("FixedArray index out of range"); return p_[i]; }
  T& at(size_t i) { return (*this)[i]; }
  T& front() { return p_[0]; }
  T& back() { return p_[n_ - 1]; }
  T* begin() { return p_; }
  T* end() { return p_ + n_; }
  const T* begin() const { return p_; }
  const T* end() const { return p_ + n_; }
  void fill(const T& v) { std::fill(begin(), end(), v); }
 private:
  size_t n_;
  T* p_;
};
template <class T, size_t N, class A = std::allocator<T>> using InlinedVector = std::vector<T, A>;

// ------------------------------------------------------------- strings
class Cord;
namespace vsh {
inline void app_u64(std::string* s, uint64_t v, bool neg) {
  if (verif_is_sym(v)) { s->push_back('?'); return; }
  char b[24];
  int n = 0;
  do { b[n++] = '0' + v % 10; v /= 10; } while (v);
  if (neg) s->push_back('-');
  while (n) s->push_back(b[--n]);
}
inline void app(std::string* s, std::string_view v) { s->append(v.data(), v.size()); }
inline void app(std::string* s, const char* v) { s->append(v); }
inline void app(std::string* s, const std::string& v) { s->append(v); }
inline void app(std::string* s, char c) { s->push_back(c); }
inline void app(std::string* s, bool b) { app_u64(s, b, false); }
template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
inline void app(std::string* s, T v) {
  if (verif_is_sym((uint64_t)v)) { s->push_back('?'); return; }
  if (v < 0) app_u64(s, 0 - (uint64_t)v, true);
  else app_u64(s, (uint64_t)v, false);
}
template <class T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0>
inline void app(std::string* s, T v) { s->append("<float>"); }
template <class T, std::enable_if_t<std::is_enum<T>::value, int> = 0>
inline void app(std::string* s, T v) { app(s, (std::underlying_type_t<T>)v); }
inline void app(std::string* s, const void* p) { s->append("<ptr>"); }
}  // namespace vsh
struct HexV { uint64_t v; int width; };
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad16 = 16 };
template <class T> HexV Hex(T v, PadSpec p = kNoPad) { return HexV{(uint64_t)v, p}; }
template <class T> T Dec(T v) { return v; }
class AlphaNum {
 public:
  std::string s;
  template <class T> AlphaNum(const T& v) { vsh::app(&s, v); }
  AlphaNum(const char* v) : s(v ? v : "") {}
  AlphaNum(const HexV& h) {
    if (verif_is_sym(h.v)) { s = "?"; return; }
    char b[20]; int n = 0; uint64_t v = h.v;
    do { b[n++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
    while (n < h.width) b[n++] = '0';
    while (n) s.push_back(b[--n]);
  }
  AlphaNum(const Cord& c);
};
template <class... A> void StrAppend(std::string* d, const A&... a) { (d->append(AlphaNum(a).s), ...); }
template <class... A> std::string StrCat(const A&... a) { std::string r; (r.append(AlphaNum(a).s), ...); return r; }
template <class... A>
void StrAppendFormat(std::string* out, std::string_view f, const A&... a) {
  std::string args[sizeof...(A) + 1] = {AlphaNum(a).s...};
  size_t k = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out->push_back(f[i]); continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out->push_back('%'); i++; continue; }
    while (i + 1 < f.size() && !((f[i + 1] >= 'a' && f[i + 1] <= 'z' && f[i + 1] != 'l' && f[i + 1] != 'h' && f[i + 1] != 'z') || (f[i + 1] >= 'A' && f[i + 1] <= 'Z'))) i++;
    i++;
    if (k < sizeof...(A)) out->append(args[k++]);
  }
}
template <class... A> std::string StrFormat(std::string_view f, const A&... a) { std::string r; StrAppendFormat(&r, f, a...); return r; }
template <class... A>
std::string Substitute(std::string_view f, const A&... a) {
  std::string args[sizeof...(A) + 1] = {AlphaNum(a).s...}, r;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] == '$' && i + 1 < f.size()) {
      i++;
      if (f[i] == '$') r.push_back('$');
      else if ((size_t)(f[i] - '0') < sizeof...(A)) r.append(args[f[i] - '0']);
    } else r.push_back(f[i]);
  }
  return r;
}
template <class... A> void SubstituteAndAppend(std::string* o, std::string_view f, const A&... a) { o->append(Substitute(f, a...)); }
template <class It> std::string StrJoin(It b, It e, std::string_view sep) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) { if (!first) r.append(sep); first = false; StrAppend(&r, *b); }
  return r;
}
template <class C> std::string StrJoin(const C& c, std::string_view sep) { return StrJoin(std::begin(c), std::end(c), sep); }
template <class T> std::string StrJoin(std::initializer_list<T> c, std::string_view sep) { return StrJoin(c.begin(), c.end(), sep); }
template <class C, class F, class = decltype(std::declval<F>()(std::declval<std::string*>(), *std::begin(std::declval<const C&>())))>
std::string StrJoin(const C& c, std::string_view sep, F f) {
  std::string r;
  bool first = true;
  for (auto& x : c) { if (!first) r.append(sep); first = false; f(&r, x); }
  return r;
}
inline bool StrContains(std::string_view a, std::string_view b) { return a.find(b) != std::string_view::npos; }
inline bool StrContains(std::string_view a, char b) { return a.find(b) != std::string_view::npos; }
inline bool StartsWith(std::string_view a, std::string_view b) { return a.size() >= b.size() && a.substr(0, b.size()) == b; }
inline bool EndsWith(std::string_view a, std::string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool ConsumePrefix(std::string_view* a, std::string_view b) { if (!StartsWith(*a, b)) return false; a->remove_prefix(b.size()); return true; }
inline bool ConsumeSuffix(std::string_view* a, std::string_view b) { if (!EndsWith(*a, b)) return false; a->remove_suffix(b.size()); return true; }
inline std::string_view StripPrefix(std::string_view a, std::string_view b) { ConsumePrefix(&a, b); return a; }
inline std::string_view StripSuffix(std::string_view a, std::string_view b) { ConsumeSuffix(&a, b); return a; }
template <class D> std::vector<std::string> StrSplit(std::string_view s, D d) {
  std::vector<std::string> r;
  std::string delim = StrCat(d);
  size_t p = 0;
  for (;;) {
    size_t q = s.find(delim, p);
    if (q == std::string_view::npos) { r.emplace_back(s.substr(p)); break; }
    r.emplace_back(s.substr(p, q - p));
    p = q + delim.size();
  }
  return r;
}
template <class T> bool SimpleAtoi(std::string_view s, T* out) {
  if (s.empty()) return false;
  bool neg = false;
  size_t i = 0;
  if (s[0] == '-') { neg = true; i = 1; if (s.size() == 1) return false; }
  uint64_t v = 0;
  for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
  *out = neg ? (T)(0 - v) : (T)v;
  return true;
}
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'a' && c <= 'z') c -= 32; return r; }
inline std::string CEscape(std::string_view s) { return std::string(s); }
inline std::string_view NullSafeStringView(const char* p) { return p ? std::string_view(p) : std::string_view(); }

class Cord {
 public:
  Cord() {}
  Cord(std::string_view s) : s_(s) {}
  Cord(const char* s) : s_(s) {}
  Cord(std::string&& s) : s_(std::move(s)) {}
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void Clear() { s_.clear(); }
  void Append(std::string_view s) { s_.append(s); }
  void Append(const Cord& c) { s_.append(c.s_); }
  void Prepend(std::string_view s) { s_.insert(0, s); }
  void RemovePrefix(size_t n) { s_.erase(0, n); }
  void RemoveSuffix(size_t n) { s_.resize(s_.size() - n); }
  std::string_view Flatten() { return s_; }
  std::optional<std::string_view> TryFlat() const { return std::string_view(s_); }
  struct ChunkR { std::string_view v[1]; size_t n; const std::string_view* begin() const { return v; } const std::string_view* end() const { return v + n; } };
  ChunkR Chunks() const { ChunkR r; r.v[0] = s_; r.n = s_.empty() ? 0 : 1; return r; }
  ChunkR chunk() const { return Chunks(); }
  explicit operator std::string() const { return s_; }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
  friend bool operator==(std::string_view a, const Cord& b) { return b.s_ == a; }
  friend bool operator!=(const Cord& a, const Cord& b) { return a.s_ != b.s_; }
  friend bool operator<(const Cord& a, const Cord& b) { return a.s_ < b.s_; }
 private:
  std::string s_;
};
inline AlphaNum::AlphaNum(const Cord& c) : s(std::string(c)) {}

// ------------------------------------------------------------- Status
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) { return StrCat("code", (int)c); }
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode c, std::string_view m) : code_(c), msg_(c == StatusCode::kOk ? std::string_view() : m) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) : code_(o.code_), msg_(std::move(o.msg_)) { o.moved(); }
  Status& operator=(Status&& o) {
    if (this != &o) { code_ = o.code_; msg_ = std::move(o.msg_); o.moved(); }
    return *this;
  }
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return (int)code_; }
  std::string_view message() const { return msg_; }
  std::string ToString() const { return ok() ? std::string("OK") : StrCat("code", (int)code_, ": ", msg_); }
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  void IgnoreError() const {}
  std::optional<Cord> GetPayload(std::string_view) const { return std::nullopt; }
  void SetPayload(std::string_view, Cord) {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
 private:
  // A moved-from Status is valid but its value is unspecified; abseil leaves
  // an Internal error behind.
  void moved() { if (code_ != StatusCode::kOk) { code_ = StatusCode::kInternal; msg_ = "Status accessed after move."; } }
  StatusCode code_;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define VSTATUS(Name, Code)                                                      \
  inline Status Name##Error(std::string_view m) { return Status(StatusCode::Code, m); } \
  inline bool Is##Name(const Status& s) { return s.code() == StatusCode::Code; }
VSTATUS(Cancelled, kCancelled)
VSTATUS(Unknown, kUnknown)
VSTATUS(InvalidArgument, kInvalidArgument)
VSTATUS(DeadlineExceeded, kDeadlineExceeded)
VSTATUS(NotFound, kNotFound)
VSTATUS(AlreadyExists, kAlreadyExists)
VSTATUS(PermissionDenied, kPermissionDenied)
VSTATUS(ResourceExhausted, kResourceExhausted)
VSTATUS(FailedPrecondition, kFailedPrecondition)
VSTATUS(Aborted, kAborted)
VSTATUS(OutOfRange, kOutOfRange)
VSTATUS(Unimplemented, kUnimplemented)
VSTATUS(Internal, kInternal)
VSTATUS(Unavailable, kUnavailable)
VSTATUS(DataLoss, kDataLoss)
VSTATUS(Unauthenticated, kUnauthenticated)
#undef VSTATUS
inline Status CancelledError() { return CancelledError(""); }
template <class T>
class StatusOr {
 public:
  StatusOr() : s_(UnknownError("")) {}
  StatusOr(const Status& s) : s_(s) {}
  StatusOr(Status&& s) : s_(std::move(s)) {}
  template <class U = T, class = std::enable_if_t<std::is_convertible<U&&, T>::value && !std::is_convertible<U&&, Status>::value && !std::is_same<std::decay_t<U>, StatusOr>::value>>
  StatusOr(U&& v) : v_(std::forward<U>(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& value() & { need(); return *v_; }
  const T& value() const& { need(); return *v_; }
  T&& value() && { need(); return std::move(*v_); }
  T& ValueOrDie() & { need(); return *v_; }
  T&& ValueOrDie() && { need(); return std::move(*v_); }
  T& operator*() & { need(); return *v_; }
  const T& operator*() const& { need(); return *v_; }
  T&& operator*() && { need(); return std::move(*v_); }
  T* operator->() { need(); return &*v_; }
  const T* operator->() const { need(); return &*v_; }
 private:
  void need() const { if (!s_.ok()) verif_fail("StatusOr accessed without a value"); }
  Status s_;
  std::optional<T> v_;
};
inline void PrintTo(const Status&, void*) {}

// ------------------------------------------------------------- time
class Duration {
 public:
  constexpr Duration() : ns(0) {}
  constexpr explicit Duration(int64_t n) : ns(n) {}
  int64_t ns;
  static constexpr int64_t kInf = INT64_MAX;
  constexpr bool inf() const { return ns == kInf || ns == -kInf; }
  friend constexpr bool operator==(Duration a, Duration b) { return a.ns == b.ns; }
  friend constexpr bool operator!=(Duration a, Duration b) { return a.ns != b.ns; }
  friend constexpr bool operator<(Duration a, Duration b) { return a.ns < b.ns; }
  friend constexpr bool operator>(Duration a, Duration b) { return a.ns > b.ns; }
  friend constexpr bool operator<=(Duration a, Duration b) { return a.ns <= b.ns; }
  friend constexpr bool operator>=(Duration a, Duration b) { return a.ns >= b.ns; }
  friend constexpr Duration operator-(Duration a) { return Duration(-a.ns); }
  friend constexpr Duration operator+(Duration a, Duration b) {
    if (a.inf()) return a;
    if (b.inf()) return b;
    int64_t r = 0;
    if (__builtin_add_overflow(a.ns, b.ns, &r)) return Duration(a.ns > 0 ? kInf : -kInf);
    return Duration(r);
  }
  friend constexpr Duration operator-(Duration a, Duration b) { return a + (-b); }
  template <class T> friend constexpr Duration operator*(Duration a, T k) {
    if (a.inf()) return k < 0 ? -a : a;
    if constexpr (std::is_floating_point<T>::value) return Duration((int64_t)(a.ns * k));
    int64_t r = 0;
    if (__builtin_mul_overflow(a.ns, (int64_t)k, &r)) return Duration((a.ns < 0) != (k < 0) ? -kInf : kInf);
    return Duration(r);
  }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> friend constexpr Duration operator*(T k, Duration a) { return a * k; }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> friend constexpr Duration operator/(Duration a, T k) { if (a.inf()) return a; return Duration((int64_t)(a.ns / k)); }
  friend constexpr int64_t operator/(Duration a, Duration b) { return a.ns / b.ns; }
  friend constexpr Duration operator%(Duration a, Duration b) { return Duration(a.ns % b.ns); }
  Duration& operator+=(Duration b) { return *this = *this + b; }
  Duration& operator-=(Duration b) { return *this = *this - b; }
  template <class T> Duration& operator*=(T k) { return *this = *this * k; }
};
inline constexpr Duration ZeroDuration() { return Duration(); }
inline constexpr Duration InfiniteDuration() { return Duration(Duration::kInf); }
namespace vsh {
template <class T> inline constexpr Duration mk(T n, int64_t unit) {
  if constexpr (std::is_floating_point<T>::value) {
    double d = (double)n * (double)unit;
    if (d >= 9.2e18) return InfiniteDuration();
    if (d <= -9.2e18) return -InfiniteDuration();
    return Duration((int64_t)d);
  } else {
    int64_t v = (int64_t)n;
    if (v > INT64_MAX / unit) return InfiniteDuration();
    if (v < -(INT64_MAX / unit)) return -InfiniteDuration();
    return Duration(v * unit);
  }
}
inline constexpr int64_t to(Duration d, int64_t unit) {
  if (d.ns == INT64_MAX) return INT64_MAX;
  if (d.ns == -INT64_MAX) return INT64_MIN;
  return d.ns / unit;
}
}  // namespace vsh
template <class T> constexpr Duration Nanoseconds(T n) { return vsh::mk(n, 1); }
template <class T> constexpr Duration Microseconds(T n) { return vsh::mk(n, 1000); }
template <class T> constexpr Duration Milliseconds(T n) { return vsh::mk(n, 1000000); }
template <class T> constexpr Duration Seconds(T n) { return vsh::mk(n, 1000000000LL); }
template <class T> constexpr Duration Minutes(T n) { return vsh::mk(n, 60000000000LL); }
template <class T> constexpr Duration Hours(T n) { return vsh::mk(n, 3600000000000LL); }
inline constexpr int64_t ToInt64Nanoseconds(Duration d) { return vsh::to(d, 1); }
inline constexpr int64_t ToInt64Microseconds(Duration d) { return vsh::to(d, 1000); }
inline constexpr int64_t ToInt64Milliseconds(Duration d) { return vsh::to(d, 1000000); }
inline constexpr int64_t ToInt64Seconds(Duration d) { return vsh::to(d, 1000000000LL); }
inline constexpr int64_t ToInt64Minutes(Duration d) { return vsh::to(d, 60000000000LL); }
inline double ToDoubleSeconds(Duration d) { return d.ns / 1e9; }
inline double ToDoubleMilliseconds(Duration d) { return d.ns / 1e6; }
inline double ToDoubleMicroseconds(Duration d) { return d.ns / 1e3; }
inline std::chrono::seconds ToChronoSeconds(Duration d) { return std::chrono::seconds(ToInt64Seconds(d)); }
inline std::chrono::milliseconds ToChronoMilliseconds(Duration d) { return std::chrono::milliseconds(ToInt64Milliseconds(d)); }
inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(d.ns); }
inline std::string FormatDuration(Duration d) { return StrCat(d.ns, "ns"); }
inline Duration AbsDuration(Duration d) { return d.ns < 0 ? -d : d; }
class Time {
 public:
  constexpr Time() : ns(0) {}
  constexpr explicit Time(int64_t n) : ns(n) {}
  int64_t ns;
  friend bool operator==(Time a, Time b) { return a.ns == b.ns; }
  friend bool operator!=(Time a, Time b) { return a.ns != b.ns; }
  friend bool operator<(Time a, Time b) { return a.ns < b.ns; }
  friend bool operator>(Time a, Time b) { return a.ns > b.ns; }
  friend bool operator<=(Time a, Time b) { return a.ns <= b.ns; }
  friend bool operator>=(Time a, Time b) { return a.ns >= b.ns; }
  friend Time operator+(Time a, Duration d) {
    if (a.ns == INT64_MAX || a.ns == INT64_MIN) return a;
    if (d.ns == INT64_MAX) return Time(INT64_MAX);
    if (d.ns == -INT64_MAX) return Time(INT64_MIN);
    int64_t r;
    if (__builtin_add_overflow(a.ns, d.ns, &r)) return d.ns > 0 ? Time(INT64_MAX) : Time(INT64_MIN);
    return Time(r);
  }
  friend Time operator+(Duration d, Time a) { return a + d; }
  friend Time operator-(Time a, Duration d) { return a + (-d); }
  friend Duration operator-(Time a, Time b) {
    if (a.ns == INT64_MAX || b.ns == INT64_MIN) return InfiniteDuration();
    if (a.ns == INT64_MIN || b.ns == INT64_MAX) return -InfiniteDuration();
    return Duration(a.ns - b.ns);
  }
  Time& operator+=(Duration d) { return *this = *this + d; }
  Time& operator-=(Duration d) { return *this = *this - d; }
};
inline Time InfiniteFuture() { return Time(INT64_MAX); }
inline Time InfinitePast() { return Time(INT64_MIN); }
inline Time UnixEpoch() { return Time(); }
inline Time Now() { return Time(vs_now()); }
inline int64_t GetCurrentTimeNanos() { return vs_now(); }
inline Time FromUnixSeconds(int64_t s) { return UnixEpoch() + Seconds(s); }
inline Time FromUnixMillis(int64_t s) { return UnixEpoch() + Milliseconds(s); }
inline Time FromUnixMicros(int64_t s) { return UnixEpoch() + Microseconds(s); }
inline Time FromUnixNanos(int64_t s) { return UnixEpoch() + Nanoseconds(s); }
namespace vsh { inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && (a < 0)) ? q - 1 : q; } }
inline int64_t ToUnixSeconds(Time t) { return vsh::fdiv(t.ns, 1000000000LL); }
inline int64_t ToUnixMillis(Time t) { return vsh::fdiv(t.ns, 1000000LL); }
inline int64_t ToUnixMicros(Time t) { return vsh::fdiv(t.ns, 1000LL); }
inline int64_t ToUnixNanos(Time t) { return t.ns; }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(t.ns)); }
struct TimeZone { bool utc = false; };
inline TimeZone UTCTimeZone() { return {true}; }
inline TimeZone LocalTimeZone() { return {false}; }
}  // namespace absl
extern int v_tz_hours;  // offset of the local time zone at the current time
namespace absl {
// Renders with full precision and fixed width, as RFC3339_full does up to
// trailing zeros of the fraction (which do not affect the order).
inline std::string FormatTime(Time t, TimeZone z = {}) {
  int off = z.utc ? 0 : v_tz_hours;
  std::string r = StrCat(t.ns + off * 3600000000000ll);
  while (r.size() < 20) r.insert(0, "0");
  return StrCat("T", r, "+0", off);
}
template <class F> std::string FormatTime(const F& f, Time t, TimeZone z) { return FormatTime(t, z); }
static const char RFC3339_full[] = "%Y";
static const char RFC3339_sec[] = "%Y";
inline void SleepFor(Duration d) { vs_sleep(d.ns); }

// ------------------------------------------------------------- mutex
class Condition {
 public:
  Condition(bool (*f)(void*), void* a) : eval_(CallFn), p_(a), fn_((void (*)())f) {}
  template <class T> Condition(bool (*f)(T*), T* a) : eval_(CallT<T>), p_((void*)a), fn_((void (*)())f) {}
  template <class T> Condition(T* o, bool (T::*m)()) : eval_(CallM<T>), p_((void*)o) { static_assert(sizeof m <= sizeof mem_); memcpy(mem_, &m, sizeof m); }
  template <class T> Condition(const T* o, bool (T::*m)() const) : eval_(CallMC<T>), p_((void*)o) { memcpy(mem_, &m, sizeof m); }
  explicit Condition(const bool* b) : eval_(CallB), p_((void*)b) {}
  template <class T, class = decltype(std::declval<const T&>()())>
  explicit Condition(const T* o) : eval_(CallF<T>), p_((void*)o) {}
  bool Eval() const { return eval_(this); }
  static bool Pred(const void* c) { return ((const Condition*)c)->Eval(); }
 private:
  static bool CallFn(const Condition* c) { return ((bool (*)(void*))c->fn_)(c->p_); }
  template <class T> static bool CallT(const Condition* c) { return ((bool (*)(T*))c->fn_)((T*)c->p_); }
  template <class T> static bool CallM(const Condition* c) { bool (T::*m)(); memcpy(&m, c->mem_, sizeof m); return (((T*)c->p_)->*m)(); }
  template <class T> static bool CallMC(const Condition* c) { bool (T::*m)() const; memcpy(&m, c->mem_, sizeof m); return (((const T*)c->p_)->*m)(); }
  static bool CallB(const Condition* c) { return *(const bool*)c->p_; }
  template <class T> static bool CallF(const Condition* c) { return (*(const T*)c->p_)(); }
  bool (*eval_)(const Condition*);
  void* p_;
  void (*fn_)() = nullptr;
  char mem_[24];
};
class Mutex {
 public:
  Mutex() {}
  ~Mutex() { vs_destroy(&m); }
  Mutex(const Mutex&) = delete;
  void Lock() { vs_lock(&m, false); }
  void Unlock() { vs_unlock(&m, false); }
  bool TryLock() { return vs_try_lock(&m, false); }
  void ReaderLock() { vs_lock(&m, true); }
  void ReaderUnlock() { vs_unlock(&m, true); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const { if (!vs_held(&m, false)) verif_fail("AssertHeld failed: mutex not held"); }
  void AssertReaderHeld() const { if (!vs_held(&m, true)) verif_fail("AssertReaderHeld failed: mutex not held"); }
  void AssertNotHeld() const {}
  void Await(const Condition& c) { vs_wait(&m, Condition::Pred, &c, kVsInf); }
  bool AwaitWithTimeout(const Condition& c, Duration d) { return vs_wait(&m, Condition::Pred, &c, (Now() + d).ns); }
  bool AwaitWithDeadline(const Condition& c, Time t) { return vs_wait(&m, Condition::Pred, &c, t.ns); }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
  bool LockWhenWithTimeout(const Condition& c, Duration d) { Time t = Now() + d; Lock(); return vs_wait(&m, Condition::Pred, &c, t.ns); }
  bool LockWhenWithDeadline(const Condition& c, Time t) { Lock(); return vs_wait(&m, Condition::Pred, &c, t.ns); }
  void ReaderLockWhen(const Condition& c) { ReaderLock(); Await(c); }
  bool ReaderLockWhenWithTimeout(const Condition& c, Duration d) { Time t = Now() + d; ReaderLock(); return vs_wait(&m, Condition::Pred, &c, t.ns); }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  void EnableInvariantDebugging(void (*)(void*), void*) {}
  void EnableDebugLog(const char*) {}
  void ForgetDeadlockInfo() {}
  mutable VMutex m;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); }
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m->LockWhen(c); }
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m->ReaderLock(); }
  ReaderMutexLock(Mutex* m, const Condition& c) : m_(m) { m->ReaderLockWhen(c); }
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
 private:
  Mutex* m_;
};
class MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m) m->Lock(); }
  ~MutexLockMaybe() { if (m_) m_->Unlock(); }
 private:
  Mutex* m_;
};
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m->Lock(); }
  ReleasableMutexLock(Mutex* m, const Condition& c) : m_(m) { m->LockWhen(c); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
class CondVar {
 public:
  void Wait(Mutex* m) { vs_cv_wait(this, &m->m, kVsInf); }
  bool WaitWithTimeout(Mutex* m, Duration d) { return vs_cv_wait(this, &m->m, (Now() + d).ns); }
  bool WaitWithDeadline(Mutex* m, Time t) { return vs_cv_wait(this, &m->m, t.ns); }
  void Signal() { vs_cv_signal(this); }
  void SignalAll() { vs_cv_broadcast(this); }
  void EnableDebugLog(const char*) {}
};
class Notification {
 public:
  Notification() {}
  explicit Notification(bool b) : n_(b) {}
  ~Notification() { vs_destroy(&m_); }
  Notification(const Notification&) = delete;
  bool HasBeenNotified() const { vs_yield(); return n_; }
  void WaitForNotification() const { vs_yield(); vs_wait(nullptr, P, this, kVsInf); }
  bool WaitForNotificationWithTimeout(Duration d) const { vs_yield(); return vs_wait(nullptr, P, this, (Now() + d).ns); }
  bool WaitForNotificationWithDeadline(Time t) const { vs_yield(); return vs_wait(nullptr, P, this, t.ns); }
  void Notify() {
    vs_yield();
    if (m_.magic != 0x5a5a) verif_fail("Notification used after destruction");
    if (n_) verif_fail("Notification notified twice");
    n_ = true;
  }
 private:
  static bool P(const void* p) { return ((const Notification*)p)->n_; }
  bool n_ = false;
  mutable VMutex m_;
};
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  bool DecrementCount() { vs_yield(); if (n_ <= 0) verif_fail("BlockingCounter decremented too often"); return --n_ == 0; }
  void Wait() { vs_wait(nullptr, P, this, kVsInf); }
 private:
  static bool P(const void* p) { return ((const BlockingCounter*)p)->n_ == 0; }
  int n_;
};
class Barrier {
 public:
  explicit Barrier(int n) : n_(n) {}
  bool Block() { n_--; vs_wait(nullptr, P, this, kVsInf); return false; }
 private:
  static bool P(const void* p) { return ((const Barrier*)p)->n_ == 0; }
  int n_;
};
enum class OnDeadlockCycle { kIgnore, kReport, kAbort };
inline void SetMutexDeadlockDetectionMode(OnDeadlockCycle) {}

// ------------------------------------------------------------- random
struct IntervalClosedOpenTag {};
struct IntervalClosedClosedTag {};
struct IntervalOpenClosedTag {};
struct IntervalOpenOpenTag {};
static const IntervalClosedOpenTag IntervalClosedOpen{}, IntervalClosedOpenT{};
static const IntervalClosedClosedTag IntervalClosed{}, IntervalClosedClosed{};
static const IntervalOpenClosedTag IntervalOpenClosed{};
static const IntervalOpenOpenTag IntervalOpen{}, IntervalOpenOpen{};
}  // namespace absl
// 0: every draw is a fresh symbolic value of its range; 1: 64-bit draws over a
// full range (keys) come from a counter, so they are distinct and concrete;
// 2: integral draws over small ranges fork to concrete values as well.
struct VRng { int mode = 0; uint64_t counter = 1000; int draws = 0; double last = 0; uint64_t last_int = 0, last_span = 0; };
extern VRng v_rng;
namespace absl {
class BitGen {
 public:
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  result_type operator()() { return v_rng.mode >= 1 ? v_rng.counter++ : verif::u64("rng"); }
};
using InsecureBitGen = BitGen;
class BitGenRef {
 public:
  using result_type = uint64_t;
  template <class G> BitGenRef(G&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  result_type operator()() { return BitGen()(); }
};
namespace vsh {
template <class T>
T draw(T lo, T hi, bool olo, bool ohi) {
  v_rng.draws++;
  if constexpr (std::is_floating_point<T>::value) {
    T v;
    if (v_rng.mode == 3) {  // a grid over [lo, hi)
      int k = verif::choose(4, "rng_grid");
      v = lo + (hi - lo) * (T)k / (T)4;
      return v;
    }
    if (v_rng.mode == 4) {  // lo + k * 2^-20 of the range, k symbolic
      uint64_t k = verif_sym(20, "rng_k");
      v_rng.last = (double)(int64_t)k / 1048576.0;
      return lo + (hi - lo) * (T)v_rng.last;
    }
    if (sizeof(T) == 8) v = (T)verif::f64("rng_f64"); else v = (T)verif::f32("rng_f32");
    // absl::Uniform over an empty real range returns lo.
    if (!(lo < hi)) return lo;
    verif_assume(olo ? v > lo : v >= lo);
    verif_assume(ohi ? v < hi : v <= hi);
    v_rng.last = v;
    return v;
  } else {
    if (v_rng.mode >= 1 && sizeof(T) == 8 && (uint64_t)hi - (uint64_t)lo > (1ull << 62)) return (T)(v_rng.counter++);
    if (olo) lo++;
    if (ohi) hi--;
    if (hi < lo) return lo;
    if (lo == hi) return lo;
    uint64_t w = (uint64_t)hi - (uint64_t)lo;
    uint64_t v = verif_sym(64, "rng_int");
    verif_assume(v <= w);
    v_rng.last_int = v;
    v_rng.last_span = w + 1;
    if (v_rng.mode >= 2) v = verif_concrete(v);
    return (T)((uint64_t)lo + v);
  }
}
}  // namespace vsh
template <class R = void, class G, class A, class B>
auto Uniform(G&& g, A lo, B hi) {
  using T = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>;
  return vsh::draw<T>((T)lo, (T)hi, false, true);
}
template <class R = void, class Tag, class G, class A, class B, class = std::enable_if_t<std::is_empty<Tag>::value>>
auto Uniform(Tag, G&& g, A lo, B hi) {
  using T = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>;
  constexpr bool olo = std::is_same<Tag, IntervalOpenClosedTag>::value || std::is_same<Tag, IntervalOpenOpenTag>::value;
  constexpr bool ohi = std::is_same<Tag, IntervalClosedOpenTag>::value || std::is_same<Tag, IntervalOpenOpenTag>::value;
  return vsh::draw<T>((T)lo, (T)hi, olo, ohi);
}
template <class R, class G> R Uniform(G&& g) { return vsh::draw<R>(std::numeric_limits<R>::min(), std::numeric_limits<R>::max(), false, false); }
template <class G> bool Bernoulli(G&& g, double p) { return verif::b("rng_bool"); }

// ------------------------------------------------------------- containers
// New hash containers iterate over their elements in reverse order of insertion.
inline bool v_hash_reversed = false;
namespace vsh {
template <class T, class = void> struct transp : std::false_type {};
template <class T> struct transp<T, std::void_t<typename T::is_transparent>> : std::true_type {};
template <class K> struct DefEq { using type = std::equal_to<K>; };
template <> struct DefEq<std::string> { using type = std::equal_to<>; };
template <> struct DefEq<std::string_view> { using type = std::equal_to<>; };
template <class K> struct DefHash { size_t operator()(const K&) const { return 0; } };

// Open-addressing tables keep their elements in one array that a rehash moves.
// This model keeps insertion order, moves everything when it grows (capacities
// 1, 3, 7, 15, ... as absl's) and destroys elements in place on erase.
template <class V, class K, class KeyOf, class Eq>
class Table {
  struct Slot { bool used; alignas(V) char buf[sizeof(V)]; };
 public:
  using value_type = V;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  using pointer = V*;
  using const_pointer = const V*;
  template <bool C>
  class It {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = V;
    using difference_type = ptrdiff_t;
    using reference = std::conditional_t<C, const V&, V&>;
    using pointer = std::conditional_t<C, const V*, V*>;
    It() : s_(nullptr), e_(nullptr) {}
    It(Slot* s, Slot* e) : s_(s), e_(e) { skip(); }
    template <bool D, class = std::enable_if_t<C && !D>> It(const It<D>& o) : s_(o.s_), e_(o.e_) {}
    reference operator*() const { chk(); return *(V*)s_->buf; }
    pointer operator->() const { chk(); return (V*)s_->buf; }
    It& operator++() { chk(); s_++; skip(); return *this; }
    It operator++(int) { It t = *this; ++*this; return t; }
    friend bool operator==(const It& a, const It& b) { return a.s_ == b.s_; }
    friend bool operator!=(const It& a, const It& b) { return a.s_ != b.s_; }
    Slot* s_;
    Slot* e_;
   private:
    void chk() const { if (s_ == e_ || !s_->used) verif_fail("hash container: invalid iterator used"); }
    void skip() { while (s_ != e_ && !s_->used) s_++; }
  };
  using iterator = It<false>;
  using const_iterator = It<true>;
  Table() {}
  Table(const Table& o) { reserve(o.sz_); for (auto& v : o) insert(v); }
  Table(Table&& o) { swap(o); }
  Table& operator=(const Table& o) { if (this != &o) { clear(); for (auto& v : o) insert(v); } return *this; }
  Table& operator=(Table&& o) { if (this != &o) { drop(); swap(o); } return *this; }
  ~Table() { drop(); }
  void swap(Table& o) { std::swap(s_, o.s_); std::swap(lo_, o.lo_); std::swap(rev_, o.rev_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); std::swap(sz_, o.sz_); }
  friend void swap(Table& a, Table& b) { a.swap(b); }
  iterator begin() { return iterator(s_ + lo_, s_ + n_); }
  iterator end() { return iterator(s_ + n_, s_ + n_); }
  const_iterator begin() const { return const_iterator(s_ + lo_, s_ + n_); }
  const_iterator end() const { return const_iterator(s_ + n_, s_ + n_); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return sz_; }
  bool empty() const { return sz_ == 0; }
  size_t capacity() const { return cap_; }
  size_t bucket_count() const { return cap_; }
  float load_factor() const { return 0.5f; }
  void max_load_factor(float) {}
  void reserve(size_t n) { if (n > cap_ && n < 64) regrow(n); }
  void rehash(size_t n) { reserve(n); }
  void clear() { drop(); }
  template <class Q> iterator find(const Q& k) {
    for (size_t i = lo_; i < n_; i++) if (s_[i].used && Eq()(KeyOf()(*(V*)s_[i].buf), k)) return iterator(s_ + i, s_ + n_);
    return end();
  }
  template <class Q> const_iterator find(const Q& k) const { return const_cast<Table*>(this)->find(k); }
  iterator find(const K& k) { return find<K>(k); }
  const_iterator find(const K& k) const { return find<K>(k); }
  template <class Q> size_t count(const Q& k) const { return find(k) != end(); }
  template <class Q> bool contains(const Q& k) const { return find(k) != end(); }
  size_t count(const K& k) const { return find<K>(k) != end(); }
  bool contains(const K& k) const { return find<K>(k) != end(); }
  std::pair<iterator, bool> insert(const V& v) { return put(v); }
  std::pair<iterator, bool> insert(V&& v) { return put(std::move(v)); }
  template <class U, class = std::enable_if_t<std::is_constructible<V, U&&>::value && !std::is_same<std::decay_t<U>, V>::value>>
  std::pair<iterator, bool> insert(U&& u) { return put(V(std::forward<U>(u))); }
  template <class I> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return put(V(std::forward<A>(a)...)); }
  iterator erase(iterator it) {
    if (it.s_ < s_ + lo_ || it.s_ >= s_ + n_ || !it.s_->used) verif_fail("hash container: erase of an invalid iterator");
    ((V*)it.s_->buf)->~V();
    it.s_->used = false;
    sz_--;
    return iterator(it.s_, s_ + n_);
  }
  iterator erase(const_iterator it) { return erase(iterator(it.s_, it.e_)); }
  iterator erase(iterator a, iterator b) { while (a != b) a = erase(a); return a; }
  template <class Q, class = std::enable_if_t<!std::is_convertible<Q, iterator>::value && !std::is_convertible<Q, const_iterator>::value>>
  size_t erase(const Q& k) { auto it = find(k); if (it == end()) return 0; erase(it); return 1; }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (auto& v : a) { auto it = b.find(KeyOf()(v)); if (it == b.end() || !(*it == v)) return false; }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }
 protected:
  template <class U> std::pair<iterator, bool> put(U&& v) {
    auto it = find(KeyOf()(v));
    if (it != end()) return {it, false};
    return {append(std::forward<U>(v)), true};
  }
  template <class... A> iterator append(A&&... a) {
    if (rev_ ? lo_ == 0 : n_ == cap_) regrow(sz_ * 2 >= cap_ ? cap_ * 2 + 1 : cap_);
    Slot* s = rev_ ? s_ + --lo_ : s_ + n_++;
    new (s->buf) V(std::forward<A>(a)...);
    s->used = true;
    sz_++;
    return iterator(s, s_ + n_);
  }
  void regrow(size_t cap) {
    if (!s_) rev_ = v_hash_reversed;
    Slot* t = (Slot*)::operator new(cap * sizeof(Slot));
    size_t from = rev_ ? cap - sz_ : 0, k = from;
    for (size_t i = lo_; i < n_; i++)
      if (s_[i].used) {
        V* v = (V*)s_[i].buf;
        new (t[k].buf) V(std::move(*v));
        t[k++].used = true;
        v->~V();
      }
    if (s_) ::operator delete(s_);
    s_ = t; lo_ = from; n_ = k; cap_ = cap;
  }
  void drop() {
    for (size_t i = lo_; i < n_; i++) if (s_[i].used) ((V*)s_[i].buf)->~V();
    if (s_) ::operator delete(s_);
    s_ = nullptr; lo_ = n_ = cap_ = sz_ = 0; rev_ = false;
  }
  Slot* s_ = nullptr;
  size_t lo_ = 0, n_ = 0, cap_ = 0, sz_ = 0;  // slots [lo_, n_) hold or held values
  bool rev_ = false;
};
struct Id { template <class T> const T& operator()(const T& t) const { return t; } };
struct First { template <class T> const auto& operator()(const T& t) const { return t.first; } };
}  // namespace vsh
template <class K, class V, class Hash = vsh::DefHash<K>, class Eq = typename vsh::DefEq<K>::type, class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public vsh::Table<std::pair<const K, V>, K, vsh::First, Eq> {
  using B = vsh::Table<std::pair<const K, V>, K, vsh::First, Eq>;
 public:
  using key_type = K;
  using mapped_type = V;
  using hasher = Hash;
  using key_equal = Eq;
  using allocator_type = A;
  using typename B::iterator;
  using typename B::value_type;
  flat_hash_map() {}
  explicit flat_hash_map(size_t) {}
  flat_hash_map(std::initializer_list<value_type> l) { for (auto& v : l) this->insert(v); }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> flat_hash_map(I b, I e) { for (; b != e; ++b) this->insert(*b); }
  template <class Q> V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  template <class Q> V& at(const Q& k) { auto it = this->find(k); if (it == this->end()) verif_fail("flat_hash_map::at: no such key"); return it->second; }
  template <class Q> const V& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) verif_fail("flat_hash_map::at: no such key"); return it->second; }
  template <class Q, class... A2> std::pair<iterator, bool> try_emplace(Q&& k, A2&&... a) {
    auto it = this->find(k);
    if (it != this->end()) return {it, false};
    return {this->append(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A2>(a)...)), true};
  }
  template <class Q, class U> std::pair<iterator, bool> insert_or_assign(Q&& k, U&& v) {
    auto it = this->find(k);
    if (it != this->end()) { it->second = std::forward<U>(v); return {it, false}; }
    return {this->append(std::forward<Q>(k), std::forward<U>(v)), true};
  }
};
template <class K, class Hash = vsh::DefHash<K>, class Eq = typename vsh::DefEq<K>::type, class A = std::allocator<K>>
class flat_hash_set : public vsh::Table<K, K, vsh::Id, Eq> {
  using B = vsh::Table<K, K, vsh::Id, Eq>;
 public:
  using key_type = K;
  using hasher = Hash;
  using key_equal = Eq;
  using allocator_type = A;
  flat_hash_set() {}
  explicit flat_hash_set(size_t) {}
  flat_hash_set(std::initializer_list<K> l) { for (auto& v : l) this->insert(v); }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> flat_hash_set(I b, I e) { for (; b != e; ++b) this->insert(*b); }
  template <class S> void merge(S&& o) {
    for (auto it = o.begin(); it != o.end();) {
      if (this->contains(*it)) { ++it; continue; }
      this->insert(*it);
      it = o.erase(it);
    }
  }
};
template <class K, class V, class... R> using node_hash_map = flat_hash_map<K, V, R...>;
template <class K, class... R> using node_hash_set = flat_hash_set<K, R...>;
template <class K, class V> using btree_map = std::map<K, V>;
template <class K> using btree_set = std::set<K>;
template <class K> struct Hash { size_t operator()(const K&) const { return 0; } };
template <class... A> size_t HashOf(const A&...) { return 0; }
template <class C, class P> typename C::size_type erase_if(C& c, P p) {
  size_t n = 0;
  for (auto it = c.begin(); it != c.end();) { if (p(*it)) { it = c.erase(it); n++; } else ++it; }
  return n;
}

// ------------------------------------------------------------- algorithms
template <class C, class P> bool c_all_of(C&& c, P p) { return std::all_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_any_of(C&& c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_none_of(C&& c, P p) { return std::none_of(std::begin(c), std::end(c), p); }
template <class C, class V> auto c_find(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class P> auto c_find_if(C&& c, P p) { return std::find_if(std::begin(c), std::end(c), p); }
template <class C, class F> F c_for_each(C&& c, F f) { return std::for_each(std::begin(c), std::end(c), f); }
template <class C, class O> O c_copy(C&& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class L> void c_sort(C& c, L l) { std::sort(std::begin(c), std::end(c), l); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <class C, class O, class F> O c_transform(const C& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C, class P> auto c_count_if(const C& c, P p) { return std::count_if(std::begin(c), std::end(c), p); }
template <class C, class V> auto c_count(const C& c, const V& v) { return std::count(std::begin(c), std::end(c), v); }
template <class C, class V> V c_accumulate(const C& c, V v) { return std::accumulate(std::begin(c), std::end(c), v); }
template <class C, class V> bool c_linear_search(const C& c, const V& v) { return c_find(c, v) != std::end(c); }
template <class C, class V> bool c_contains(const C& c, const V& v) { return c_linear_search(c, v); }
template <class C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template <class C, class V> void c_fill(C& c, const V& v) { std::fill(std::begin(c), std::end(c), v); }
template <class C, class V> void c_iota(C& c, V v) { std::iota(std::begin(c), std::end(c), v); }
template <class C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
}  // namespace absl
#endif  // VERIF_SHIM_ABSL_H_
