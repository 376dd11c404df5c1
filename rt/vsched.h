// Cooperative scheduler behind absl::Mutex, std::thread and the clock.  Every
// scheduling decision is a verif_choose_ input, so schedules are explored
// exhaustively within the configured bounds and replay exactly.
#ifndef VERIF_RT_SCHED_H_
#define VERIF_RT_SCHED_H_
#include <cstdint>
struct VMutex {
  int writer = -1;
  int readers = 0;
  int magic = 0x5a5a;
};
struct VsConfig {
  int preempt = 0;          // preemptions of a runnable thread per path
  int timeouts = 0;         // timer expirations while another thread can run
  int spurious = 0;         // spurious CondVar wakeups per path
  bool free_switch = false; // explore every successor when a thread blocks
  int delays = 0;           // else: deviations from round robin at blocking
  int idle_timers = 8;      // consecutive idle timer expirations before
  bool idle_is_bug = false; //   the path is cut (or reported)
  bool at_end_drain = true;
};
extern VsConfig vs_cfg;
static constexpr int64_t kVsInf = INT64_MAX;

int vs_self();
int64_t vs_now();
void vs_advance(int64_t ns);         // moves the clock, expiring timers
void vs_set_now(int64_t ns);
void vs_yield();                     // preemption point
void vs_switch_away();               // lets all other runnable threads go first
bool vs_run_others();                // runs others until all are blocked/done
void vs_lock(VMutex* m, bool reader);
bool vs_try_lock(VMutex* m, bool reader);
void vs_unlock(VMutex* m, bool reader);
void vs_destroy(VMutex* m);
bool vs_held(VMutex* m, bool reader);
typedef bool (*VsPred)(const void*);
// Waits (with m held unless null) for pred; false when the deadline expired.
bool vs_wait(VMutex* m, VsPred pred, const void* arg, int64_t deadline);
bool vs_cv_wait(void* cv, VMutex* m, int64_t deadline);  // true: timed out
void vs_cv_signal(void* cv);
void vs_cv_broadcast(void* cv);
void vs_sleep(int64_t ns);
int vs_spawn(void (*fn)(void*), void* arg);
void vs_join(int id);
bool vs_done(int id);
int vs_threads();
int vs_live_threads();
bool vs_blocked(int id);
#endif
