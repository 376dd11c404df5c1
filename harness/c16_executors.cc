// C16: TaskExecutor, TaskWorker and PeriodicClosure under every schedule.
#include <thread>
#include "common.h"
#include "reverb/cc/support/periodic_closure.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/task_worker.h"
using namespace deepmind::reverb;
namespace {
struct Task { int by; bool scheduled = false; bool cancelled = false; int runs = 0; int start = -1, end = -1, sched_begin = -1, sched_end = -1; };
std::vector<Task> tasks;
int seq = 0, close_begin = -1, close_end = -1;
int threads = 1;
bool gate_open = true;  // tasks block until it opens
absl::Mutex gate_mu;
void body(int id) {
  Task& t = tasks[id];
  VCHECK(t.runs == 0, "a task runs at most once");
  VCHECK(close_end < 0, "no task runs once closing has returned");
  t.runs++;
  t.start = seq++;
  {
    absl::MutexLock l(&gate_mu);
    gate_mu.Await(absl::Condition(&gate_open));
  }
  tasks[id].end = seq++;
}
#if KIND_WORKER
struct Info {
  int id;
  uint64_t payload;
  std::string DebugString() const { return "task"; }
};
typedef std::function<void(Info, const absl::Status&, bool)> Cb;
typedef TaskWorker<Info, Cb> W;
constexpr int kWarn = 1;
W* w;
void schedule(int id) {
  uint64_t payload = verif::u64("payload");
  tasks[id].sched_begin = seq++;
  bool close_before = close_begin >= 0;
  bool room = w->Schedule(Info{id, payload}, [id, payload](Info i, const absl::Status& s, bool) {
    VCHECK(i.id == id && i.payload == payload, "a task gets the information it was scheduled with");
    if (!s.ok()) {
      VCHECK(absl::IsCancelled(s) && close_begin >= 0, "a task is cancelled only by closing");
      tasks[id].cancelled = true;
      verif_reach("cancelled task");
    }
    body(id);
  });
  tasks[id].scheduled = !close_before && close_begin < 0;
  tasks[id].sched_end = seq++;
  if (!room) verif_reach("queue almost full");
}
void make() { w = new W(THREADS, kWarn, "w"); }
void close() { w->Close(); }
void destroy() { delete w; }
#else
TaskExecutor* w;
void schedule(int id) {
  tasks[id].sched_begin = seq++;
  w->Schedule([id] { body(id); });
  tasks[id].scheduled = close_begin < 0;
  tasks[id].sched_end = seq++;
}
void make() { w = new TaskExecutor(THREADS, "w"); }
void close() { w->Close(); }
void destroy() { delete w; }
#endif
}  // namespace
#if !PERIODIC
extern "C" void verif_main() {
  vs_cfg.free_switch = true;
  vs_cfg.idle_timers = 4;
  vs_cfg.idle_is_bug = true;
  vs_cfg.preempt = PREEMPT;
  threads = 1 + choose(2, "threads");
  tasks.resize(CALLERS * PER);
  make();
  gate_open = !flip("gated");
  bool early = flip("close while callers schedule");
  bool explicit_close = KIND_WORKER ? false : flip("close first");
  std::vector<std::thread> th;
  for (int c = 0; c < CALLERS; c++)
    th.emplace_back([c] { for (int k = 0; k < PER; k++) { tasks[c * PER + k].by = c; schedule(c * PER + k); } });
  std::thread closer;
  if (early) {
    closer = std::thread([] { close_begin = seq++; close(); close_end = seq++; });
    verif_reach("early close");
  }
  if (!gate_open) {
    vs_run_others();
    // As many tasks as there are threads (plus the one that closes) are busy.
    int busy = 0, accepted = 0;
    for (auto& t : tasks) { busy += t.start >= 0 && t.end < 0; accepted += t.scheduled; }
    if (!early) VCHECK(busy == std::min<int>(THREADS, accepted), "every thread works while there are tasks");
    if (early) VCHECK(close_end < 0 || busy == 0, "closing waits for the tasks");
    absl::MutexLock l(&gate_mu);
    gate_open = true;
    verif_reach("gated");
  }
  for (auto& t : th) t.join();
  if (!early) {
    if (flip("wait")) {
      vs_cfg.preempt = 0;
      vs_run_others();
      for (auto& t : tasks) VCHECK(t.end >= 0, "an accepted task runs without further action");
    }
    close_begin = seq++;
    if (explicit_close) { close(); }
  } else {
    closer.join();
  }
  if (early && KIND_WORKER) {
    // Close was called; the destructor would stop the checker again, which is allowed.
  }
  if (close_end < 0 && explicit_close) {
    for (auto& t : tasks) VCHECK(t.end >= 0, "closing waits for the accepted tasks");
    int n = seq;
    (void)n;
  }
  destroy();
  for (size_t i = 0; i < tasks.size(); i++) {
    Task& t = tasks[i];
    if (t.scheduled) VCHECK(t.runs == 1 && t.end >= 0, "every accepted task has run exactly once when the executor is gone");
    VCHECK(t.runs == 0 || t.end >= 0, "no task is left half way");
    if (close_end >= 0 && t.sched_begin > close_end) VCHECK(t.runs == 0, "a task scheduled after closing does not run");
  }
  if (THREADS == 1)
    for (auto& a : tasks)
      for (auto& b : tasks)
        if (a.runs && b.runs && !a.cancelled && !b.cancelled && a.sched_end < b.sched_begin && (close_begin < 0 || b.start < close_begin))
          VCHECK(a.start < b.start, "one thread runs the tasks in order");
}
#else
namespace {
std::vector<int64_t> starts;
int64_t dur;
bool in_fn = false, stop_returned = false, started = false;
}
extern "C" void verif_main() {
  vs_cfg.free_switch = true;
  vs_cfg.idle_timers = 20;
  int64_t period = verif::range(1, 1000, "period");
  dur = verif::range(0, 2000, "duration");
  int64_t wait = verif::range(0, 3000, "wait");
  verif_assume(wait <= 3 * period);
  internal::PeriodicClosure pc([] {
    VCHECK(!in_fn, "the closure does not run concurrently with itself");
    VCHECK(!stop_returned, "the closure does not run once Stop has returned");
    VCHECK(started, "the closure does not run before Start");
    in_fn = true;
    starts.push_back(vs_now());
    absl::SleepFor(absl::Nanoseconds(dur));
    in_fn = false;
  }, absl::Nanoseconds(period));
  if (flip("never started")) {
    absl::SleepFor(absl::Nanoseconds(wait));
    VCHECK(pc.Stop().ok(), "Stop succeeds");
    VCHECK(!pc.Start().ok(), "Start fails after Stop");
    VCHECK(starts.empty(), "the closure does not run before Start");
    return;
  }
  int64_t t0 = vs_now();
  started = true;
  VCHECK(pc.Start().ok(), "Start succeeds");
  if (flip("start again")) { VCHECK(absl::IsInvalidArgument(pc.Start()), "a second Start fails"); verif_reach("second start"); }
  vs_cfg.preempt = PREEMPT;
  vs_cfg.timeouts = TIMEOUTS;
  absl::SleepFor(absl::Nanoseconds(wait));
  int64_t end = vs_now();
  bool exact = vs_cfg.preempt == PREEMPT && vs_cfg.timeouts == TIMEOUTS;
  std::vector<int64_t> seen = starts;
  if (flip("stop twice at once")) {
    absl::Status s2;
    std::thread t([&] { s2 = pc.Stop(); });
    absl::Status s1 = pc.Stop();
    stop_returned = s1.ok();
    t.join();
    stop_returned = true;
    VCHECK(s1.ok() != s2.ok(), "exactly one of two Stop calls succeeds");
    verif_reach("two stops");
  } else {
    VCHECK(pc.Stop().ok(), "Stop succeeds");
    stop_returned = true;
  }
  VCHECK(!in_fn, "Stop waits for the running closure");
  VCHECK(absl::IsInvalidArgument(pc.Stop()), "a further Stop fails");
  VCHECK(absl::IsInvalidArgument(pc.Start()), "Start fails after Stop");
  for (size_t i = 0; i < starts.size(); i++)
    VCHECK(starts[i] - (i ? starts[i - 1] : t0) >= period, "runs are at least a period apart");
  if (exact) {
    // With nothing else in the way, every run happens on time.
    int64_t t = t0 + period, n = 0;
    for (; t < end && n < 4; n++) {
      VCHECK((int64_t)seen.size() > n && seen[n] == t, "the closure runs at its period");
      t += dur > period ? dur : period;
    }
    if (n) verif_reach("ran on time");
  }
  size_t runs = starts.size();
  absl::SleepFor(absl::Nanoseconds(5000));
  VCHECK(starts.size() == runs, "the closure does not run once Stop has returned");
}
#endif
