// Interface between harnesses, shims and the symbolic executor.  Under symex
// the extern "C" functions are intrinsics; natively (replay) they are defined
// in native.cc and take their values from the recorded counterexample.
#ifndef VERIF_RT_VERIF_H_
#define VERIF_RT_VERIF_H_
#include <cstdint>
#include <cstring>
extern "C" {
uint64_t verif_sym(int bits, const char* name);
uint64_t verif_choose_(uint64_t n, const char* name);
void verif_assert_(bool c, const char* msg);
void verif_assume(bool c);
[[noreturn]] void verif_fail(const char* msg);
void verif_reach(const char* msg);
void verif_known(const char* msg);
void verif_note(const char* msg);
void verif_print(const char* msg, uint64_t v);
uint64_t verif_co_create(void (*fn)(void*), void* arg);
void verif_co_switch(uint64_t id);
void verif_stop();
uint64_t verif_concrete(uint64_t v);
void verif_case(uint64_t id);
bool verif_is_sym(uint64_t v);
}
#define VCHECK(c, msg) verif_assert_(static_cast<bool>(c), msg)

namespace verif {
inline int choose(int n, const char* name) { return (int)verif_choose_(n, name); }
inline bool flip(const char* name) { return verif_choose_(2, name) != 0; }
inline uint64_t u64(const char* n) { return verif_sym(64, n); }
inline int64_t i64(const char* n) { return (int64_t)verif_sym(64, n); }
inline uint32_t u32(const char* n) { return (uint32_t)verif_sym(32, n); }
inline int32_t i32(const char* n) { return (int32_t)verif_sym(32, n); }
inline uint8_t u8(const char* n) { return (uint8_t)verif_sym(8, n); }
inline bool b(const char* n) { return verif_sym(1, n) != 0; }
inline int bits_for(uint64_t span) {
  int k = 0;
  while (k < 64 && (span >> k)) k++;
  return k ? k : 1;
}
inline int64_t range(int64_t lo, int64_t hi, const char* n) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  uint64_t v = verif_sym(bits_for(span), n);
  if (span & (span + 1)) verif_assume(v <= span);
  return (int64_t)((uint64_t)lo + v);
}
inline int32_t range32(int32_t lo, int32_t hi, const char* n) { return (int32_t)range(lo, hi, n); }
inline double f64(const char* n) {
  uint64_t v = verif_sym(64, n);
  double d;
  memcpy(&d, &v, 8);
  return d;
}
inline float f32(const char* n) {
  uint32_t v = (uint32_t)verif_sym(32, n);
  float d;
  memcpy(&d, &v, 4);
  return d;
}
}  // namespace verif
#endif
