// Native side of the intrinsics: replays recorded inputs against the compiled
// sources.  Usage: prog INPUTS   (one "kind width value" line per input).
#include <ucontext.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>

#include "verif.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define VASAN 1
#endif
extern "C" void verif_main();
namespace {
std::vector<uint64_t> vals;
std::vector<std::string> names;
std::vector<int> kinds;
size_t pos = 0;
bool diverged = false;
struct Co { ucontext_t ctx; char* stack = nullptr; size_t size = 0; void (*fn)(void*); void* arg; void* fake = nullptr; };
std::vector<Co*> cos;
uint64_t curco = 0;
constexpr size_t kStack = 1 << 20;
uint64_t next(int kind, int width, const char* name) {
  if (pos >= vals.size()) { diverged = true; return 0; }
  std::string nm(name);
  for (char& c : nm) if (c == ' ') c = '_';
  if (kinds[pos] != kind || names[pos] != nm) {
    if (!diverged) fprintf(stderr, "replay diverged at input %zu: recorded %s, asked %s\n", pos, names[pos].c_str(), name);
    diverged = true;
  }
  uint64_t v = vals[pos++];
  if (getenv("VERIF_TRACE")) fprintf(stderr, "  input %s = %llu\n", name, (unsigned long long)v);
  return v;
}
[[noreturn]] void done(int code) { fflush(stdout); fflush(stderr); _exit(code); }
void tramp() {
#ifdef VASAN
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  Co* c = cos[curco];
  c->fn(c->arg);
  fprintf(stderr, "coroutine returned\n");
  done(4);
}
}  // namespace
extern "C" {
uint64_t verif_sym(int bits, const char* n) {
  uint64_t v = next(0, bits, n);
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t verif_choose_(uint64_t n, const char* nm) { uint64_t v = next(1, 64, nm); return v < n ? v : 0; }
void verif_assert_(bool c, const char* msg) {
  if (c) return;
  if (diverged) { fprintf(stderr, "NATIVE-DIVERGED (%s)\n", msg); done(4); }
  printf("NATIVE-VIOLATION %s\n", msg);
  done(1);
}
void verif_assume(bool c) { if (!c) { fprintf(stderr, "NATIVE-ASSUME\n"); done(3); } }
[[noreturn]] void verif_fail(const char* msg) {
  if (diverged) { fprintf(stderr, "NATIVE-DIVERGED (%s)\n", msg); done(4); }
  printf("NATIVE-VIOLATION %s\n", msg); done(1);
}
void verif_reach(const char*) {}
void verif_known(const char* m) { printf("NATIVE-KNOWN %s\n", m); done(5); }
void verif_note(const char* m) { if (getenv("VERIF_TRACE")) fprintf(stderr, "note: %s\n", m); }
void verif_print(const char* m, uint64_t v) { if (getenv("VERIF_TRACE")) fprintf(stderr, "print %s = %llu\n", m, (unsigned long long)v); }
uint64_t verif_co_create(void (*fn)(void*), void* arg) {
  Co* c = new Co; c->fn = fn; c->arg = arg; c->size = kStack; c->stack = (char*)malloc(kStack);
  getcontext(&c->ctx);
  c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = kStack; c->ctx.uc_link = nullptr;
  makecontext(&c->ctx, tramp, 0);
  cos.push_back(c);
  return cos.size() - 1;
}
void verif_co_switch(uint64_t id) {
  Co *a = cos[curco], *b = cos[id];
  curco = id;
#ifdef VASAN
  __sanitizer_start_switch_fiber(&a->fake, b->stack, b->size);
#endif
  swapcontext(&a->ctx, &b->ctx);
#ifdef VASAN
  __sanitizer_finish_switch_fiber(a->fake, nullptr, nullptr);
#endif
}
void verif_stop() { printf("NATIVE-OK stopped\n"); done(0); }
uint64_t verif_concrete(uint64_t v) { return v; }
void verif_case(uint64_t) {}
bool verif_is_sym(uint64_t) { return false; }
}
static char* mainstack_lo; static size_t mainstack_sz;
static void run_main(void*) { verif_main(); printf(diverged ? "NATIVE-DIVERGED\n" : "NATIVE-OK\n"); done(diverged ? 4 : 0); }
int main(int argc, char** argv) {
  if (argc > 1) {
    std::ifstream f(argv[1]);
    int k, w; uint64_t v; std::string n;
    while (f >> k >> w >> v >> n) { kinds.push_back(k); vals.push_back(v); names.push_back(n); }
  }
  // Coroutine 0 is the harness itself, on its own stack.
  ucontext_t self;
  (void)self;
  verif_co_create(run_main, nullptr);
  curco = 0;
  static Co boot;
#ifdef VASAN
  __sanitizer_start_switch_fiber(&boot.fake, cos[0]->stack, cos[0]->size);
#endif
  swapcontext(&boot.ctx, &cos[0]->ctx);
  return 0;
}
