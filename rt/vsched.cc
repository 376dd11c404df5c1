#include "vsched.h"

#include <thread>

#include "verif.h"

VsConfig vs_cfg;

namespace {
enum St { kReady, kLock, kWait, kCv, kJoin, kSleep, kDone };
struct T {
  St st;
  VMutex* m;
  bool reader;
  VsPred pred;
  const void* arg;
  void* cv;
  uint64_t cvseq;
  int64_t deadline;   // kVsInf: none
  bool timed_out;
  int join;
  uint64_t co;
  void (*fn)(void*);
  void* farg;
};
constexpr int kMax = 24;
T ts[kMax];
int nt = 1;
int cur = 0;
int64_t now_ns = 1600000000000000000LL;
uint64_t cvseq = 0;
int idle_count = 0;
int held_locks[kMax];

bool can_lock(VMutex* m, bool reader) {
  if (m->writer >= 0) return false;
  return reader || m->readers == 0;
}
void take(VMutex* m, bool reader) {
  if (reader) m->readers++;
  else m->writer = cur;
  held_locks[cur]++;
}
void drop(VMutex* m, bool reader) {
  if (m->magic != 0x5a5a) verif_fail("mutex used after destruction");
  if (reader) {
    if (m->readers <= 0) verif_fail("reader unlock of a mutex that is not held");
    m->readers--;
  } else {
    if (m->writer != cur) verif_fail("unlock of a mutex held by another thread");
    m->writer = -1;
  }
  held_locks[cur]--;
}
bool runnable(int i) {
  T& t = ts[i];
  switch (t.st) {
    case kReady: return true;
    case kLock:
      if (t.m->magic != 0x5a5a) verif_fail("mutex destroyed while a thread waits for it");
      return can_lock(t.m, t.reader);
    case kWait:
      if (t.m && t.m->magic != 0x5a5a) verif_fail("mutex destroyed while a thread waits for it");
      if (t.m && !can_lock(t.m, t.reader)) return false;
      if (t.deadline <= now_ns) return true;
      return t.pred(t.arg);
    case kCv: return t.deadline <= now_ns && can_lock(t.m, t.reader);
    case kJoin: return ts[t.join].st == kDone;
    case kSleep: return t.deadline <= now_ns;
    default: return false;
  }
}
bool timer(int i) {
  T& t = ts[i];
  return (t.st == kWait || t.st == kCv || t.st == kSleep) && t.deadline != kVsInf && t.deadline > now_ns;
}
void go(int i) {
  if (i == cur) return;
  cur = i;
  verif_co_switch(ts[i].co);
}
void fire(int i) {
  if (ts[i].deadline > now_ns) now_ns = ts[i].deadline;
}
// Picks the next thread; `self_ok` when the current thread can go on.
void resched(bool self_ok) {
  for (;;) {
    int cand[kMax], n = 0;
    if (self_ok) {
      if (vs_cfg.preempt <= 0 && vs_cfg.timeouts <= 0) return;
      cand[n++] = cur;
    }
    bool allow = self_ok ? vs_cfg.preempt > 0 : true;
    if (allow)
      for (int k = 1; k <= nt; k++) {
        int i = (cur + k) % nt;
        if (i == cur && self_ok) continue;
        if (ts[i].st != kDone && runnable(i)) cand[n++] = i;
      }
    int nrun = n;
    if (!self_ok && n > 1 && !vs_cfg.free_switch) {
      if (n > vs_cfg.delays + 1) n = vs_cfg.delays + 1;
      nrun = n;
    }
    int timers[kMax], nti = 0;
    if (n == 0 || vs_cfg.timeouts > 0)
      for (int i = 0; i < nt; i++)
        if (timer(i) && !(i == cur && self_ok)) timers[nti++] = i;
    if (n == 0) {
      if (nti == 0) verif_fail("deadlock: no thread can make progress");
      // Idle: time passes until the earliest timer.
      int best = timers[0];
      for (int k = 1; k < nti; k++)
        if (ts[timers[k]].deadline < ts[best].deadline) best = timers[k];
      if (++idle_count > vs_cfg.idle_timers) {
        if (vs_cfg.idle_is_bug) verif_fail("no progress: only timers expire");
        verif_assume(false);
      }
      fire(best);
      continue;
    }
    int c = 0;
    if (n + nti > 1) c = (int)verif_choose_(n + nti, "sched");
    if (c < nrun) {
      int i = cand[c];
      if (self_ok) {
        if (i != cur) vs_cfg.preempt--;
      } else if (!vs_cfg.free_switch) {
        vs_cfg.delays -= c;
      }
      if (nti == 0) idle_count = 0;
      go(i);
      return;
    }
    vs_cfg.timeouts--;
    fire(timers[c - nrun]);
  }
}
void block() { resched(runnable(cur)); }
void reacquire(VMutex* m, bool reader) {
  T& t = ts[cur];
  if (!can_lock(m, reader)) {
    t.st = kLock; t.m = m; t.reader = reader; t.deadline = kVsInf;
    resched(false);
    t.st = kReady;
  }
  take(m, reader);
}
void entry(void* p) {
  int i = (int)(intptr_t)p;
  ts[i].fn(ts[i].farg);
  ts[i].st = kDone;
  resched(false);
  verif_fail("scheduler resumed a finished thread");
}
}  // namespace

int vs_self() { return cur; }
int64_t vs_now() { return now_ns; }
void vs_set_now(int64_t ns) { now_ns = ns; }
void vs_advance(int64_t ns) { now_ns += ns; }
void vs_yield() { resched(true); }
void vs_switch_away() {
  for (int k = 1; k < nt; k++) {
    int i = (cur + k) % nt;
    if (ts[i].st != kDone && runnable(i)) { go(i); return; }
  }
}
static bool others_idle(const void* p) {
  int me = (int)(intptr_t)p;
  for (int i = 0; i < nt; i++)
    if (i != me && ts[i].st != kDone && ts[i].pred != others_idle && runnable(i)) return false;
  return true;
}
bool vs_run_others() {
  vs_wait(nullptr, others_idle, (const void*)(intptr_t)cur, kVsInf);
  return true;
}
void vs_lock(VMutex* m, bool reader) {
  if (m->magic != 0x5a5a) verif_fail("mutex used after destruction");
  resched(true);
  if (m->magic != 0x5a5a) verif_fail("mutex used after destruction");
  if (m->writer == cur) verif_fail("deadlock: mutex locked twice by one thread");
  reacquire(m, reader);
}
bool vs_try_lock(VMutex* m, bool reader) {
  resched(true);
  if (!can_lock(m, reader)) return false;
  take(m, reader);
  return true;
}
void vs_unlock(VMutex* m, bool reader) { drop(m, reader); }
bool vs_held(VMutex* m, bool reader) { return m->writer == cur || (reader && m->readers > 0); }
void vs_destroy(VMutex* m) {
  if (m->writer >= 0 || m->readers > 0) verif_fail("mutex destroyed while held");
  m->magic = 0;
}
bool vs_wait(VMutex* m, VsPred pred, const void* arg, int64_t deadline) {
  if (pred(arg)) return true;
  bool reader = false;
  if (m) {
    reader = m->writer != cur;
    drop(m, reader);
  }
  T& t = ts[cur];
  t.st = kWait; t.m = m; t.reader = reader; t.pred = pred; t.arg = arg; t.deadline = deadline;
  resched(runnable(cur));
  t.st = kReady;
  t.pred = nullptr;
  if (m) take(m, reader);
  return pred(arg);
}
bool vs_cv_wait(void* cv, VMutex* m, int64_t deadline) {
  T& t = ts[cur];
  bool reader = m->writer != cur;
  drop(m, reader);
  t.st = kCv; t.cv = cv; t.cvseq = ++cvseq; t.m = m; t.reader = reader; t.deadline = deadline; t.timed_out = true;
  if (vs_cfg.spurious > 0 && verif_choose_(2, "spurious")) {
    vs_cfg.spurious--;
    t.timed_out = false;
    t.st = kLock;
    t.deadline = kVsInf;
  }
  resched(runnable(cur));
  t.st = kReady;
  bool to = t.timed_out;
  take(m, reader);
  return to;
}
static void wake(T& t) {
  t.st = kLock;
  t.timed_out = false;
  t.deadline = kVsInf;
  t.cv = nullptr;
}
void vs_cv_signal(void* cv) {
  if (held_locks[cur] == 0) resched(true);
  int best = -1;
  for (int i = 0; i < nt; i++)
    if (ts[i].st == kCv && ts[i].cv == cv && (best < 0 || ts[i].cvseq < ts[best].cvseq)) best = i;
  if (best >= 0) wake(ts[best]);
}
void vs_cv_broadcast(void* cv) {
  if (held_locks[cur] == 0) resched(true);
  for (int i = 0; i < nt; i++)
    if (ts[i].st == kCv && ts[i].cv == cv) wake(ts[i]);
}
void vs_sleep(int64_t ns) {
  if (ns <= 0) { resched(true); return; }
  T& t = ts[cur];
  t.st = kSleep;
  t.deadline = ns > kVsInf - now_ns ? kVsInf : now_ns + ns;
  resched(false);
  t.st = kReady;
}
int vs_spawn(void (*fn)(void*), void* arg) {
  if (nt >= kMax) verif_fail("harness: too many threads");
  int i = nt++;
  T& t = ts[i];
  t.st = kReady; t.fn = fn; t.farg = arg; t.deadline = kVsInf;
  t.co = verif_co_create(entry, (void*)(intptr_t)i);
  return i;
}
void vs_join(int id) {
  if (ts[id].st == kDone) return;
  T& t = ts[cur];
  t.st = kJoin; t.join = id;
  resched(false);
  t.st = kReady;
}
bool vs_done(int id) { return ts[id].st == kDone; }
bool vs_blocked(int id) { return ts[id].st != kDone && !runnable(id); }
int vs_threads() { return nt; }
int vs_live_threads() {
  int n = 0;
  for (int i = 0; i < nt; i++) n += ts[i].st != kDone;
  return n;
}

// std::thread on the scheduler.
namespace std {
thread::_State::~_State() = default;
namespace {
void run_state(void* p) {
  unique_ptr<thread::_State> s(static_cast<thread::_State*>(p));
  s->_M_run();
}
}  // namespace
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  int id = vs_spawn(run_state, s.release());
  *reinterpret_cast<uint64_t*>(&_M_id) = id + 1;
}
void thread::join() {
  uint64_t id = *reinterpret_cast<uint64_t*>(&_M_id);
  if (id == 0) verif_fail("join of a thread that is not joinable");
  vs_join((int)id - 1);
  _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
unsigned int thread::hardware_concurrency() noexcept { return 2; }
}  // namespace std
#include <chrono>
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  return time_point(duration(vs_now()));
}
