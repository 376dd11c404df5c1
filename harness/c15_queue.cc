// C15: producers, consumers and a closer on one queue.
#include <thread>
#include "common.h"
#include "reverb/cc/support/queue.h"
#include "reverb/cc/support/unbounded_queue.h"
using namespace deepmind::reverb::internal;
namespace {
struct V { int id = -1; uint64_t data = 0; };
#if UNBOUNDED
UnboundedQueue<V> q;
constexpr int kCap = 1000;
#else
constexpr int kCap = CAP;
Queue<V> q(CAP);
#endif
struct Push { uint64_t data; int start, end; bool ok; };
struct Pop { std::vector<V> v; int start, end; };
std::vector<Push> pushes;  // by id
std::vector<Pop> pops;
int seq = 0;
int closed_at = -1, last_at = -1;        // when Close / SetLastItemPushed returned
int close_begin = -1, last_begin = -1;
bool quiet = false;                       // the harness shuts everything down
int want[8];                              // what a blocked consumer waits for
bool producing[8];

void push() {
  int id = (int)pushes.size();
  pushes.push_back({verif::u64("data"), seq++, -1, false});
  V v;
  v.id = id;
  v.data = pushes[id].data;
  bool ok = q.Push(v);
  if (quiet) return;
  bool must_fail = (closed_at >= 0 && closed_at < pushes[id].start) || (last_at >= 0 && last_at < pushes[id].start);
  pushes[id].ok = ok;
  pushes[id].end = seq++;
  if (must_fail) VCHECK(!ok, "a push fails after closing or after the last item");
  if (!ok) VCHECK(close_begin >= 0 || last_begin >= 0, "a push fails only after closing or after the last item");
  VCHECK(q.size() <= kCap, "a bounded queue never holds more than its capacity");
}
void got(std::vector<V> v, int start) {
  for (auto& x : v) {
    VCHECK(x.id >= 0 && x.id < (int)pushes.size(), "what comes out was pushed");
    VCHECK(x.data == pushes[x.id].data, "what comes out is what was pushed");
  }
  pops.push_back({v, start, seq++});
}
void pop(int t) {
  int start = seq++;
  V v;
  want[t] = 1;
  bool ok = q.Pop(&v);
  want[t] = 0;
  if (quiet) return;
  if (ok) {
    VCHECK(closed_at < 0 || closed_at > start, "a pop fails after closing");
    got({v}, start);
  } else {
    VCHECK(close_begin >= 0 || last_begin >= 0, "a pop fails only after closing or after the last item");
    verif_reach("pop fails");
  }
}
#if !UNBOUNDED
void pop_batch(int t) {
  int start = seq++;
  int n = 1 + choose(kCap + 1, "batch");
  bool timed = flip("timed");
  std::vector<V> v;
  want[t] = timed ? 0 : n;
  int64_t t0 = vs_now();
  absl::Status s = timed ? q.PopBatch(n, absl::Nanoseconds(1000), &v) : q.PopBatch(n, &v);
  want[t] = 0;
  if (quiet) return;
  if (n > kCap) { VCHECK(absl::IsInvalidArgument(s) && v.empty(), "a batch larger than the capacity is invalid"); return; }
  if (s.ok()) {
    VCHECK((int)v.size() == n, "a batch has the size asked for");
    VCHECK(closed_at < 0 || closed_at > start, "a pop fails after closing");
    got(v, start);
    verif_reach("batch");
    return;
  }
  VCHECK(v.empty(), "a failed batch pop takes nothing");
  if (absl::IsDeadlineExceeded(s)) {
    VCHECK(timed && vs_now() - t0 >= 1000, "a pop times out only after its timeout");
    verif_reach("timeout");
  } else if (absl::IsResourceExhausted(s)) {
    VCHECK(last_begin >= 0, "the last item was pushed");
    VCHECK(q.size() < n, "a batch that is complete is handed out after the last item");
    verif_reach("exhausted");
  } else {
    VCHECK(absl::IsCancelled(s) && (close_begin >= 0 || last_begin >= 0), "a pop is cancelled only by closing");
  }
}
#endif
}  // namespace
extern "C" void verif_main() {
  // Any position in the ring.
  int off = choose(OFFSETS, "offset");
  for (int i = 0; i < off; i++) { push(); pop(7); }
  vs_cfg.preempt = PREEMPT;
  vs_cfg.timeouts = TIMEOUTS;
  vs_cfg.free_switch = true;
  std::vector<std::thread> th;
  for (int p = 0; p < PRODUCERS; p++)
    th.emplace_back([p] { for (int k = 0; k < PUSHES && !quiet; k++) { producing[p] = true; push(); producing[p] = false; } });
  for (int c = 0; c < CONSUMERS; c++)
    th.emplace_back([c] {
      for (int k = 0; k < POPS && !quiet; k++) {
#if !UNBOUNDED
        if (BATCH && flip("by batch")) { pop_batch(c); continue; }
#endif
        pop(c);
      }
    });
  int ctl = choose(3, "control");
  if (ctl > 0)
    th.emplace_back([ctl] {
      if (ctl == 1) { close_begin = seq++; q.Close(); closed_at = seq++; }
      else { last_begin = seq++; q.SetLastItemPushed(); last_at = seq++; }
    });
  vs_run_others();
  vs_cfg.preempt = vs_cfg.timeouts = 0;
  int size = q.size();
  bool closed = closed_at >= 0, last = last_at >= 0;
  for (int p = 0; p < PRODUCERS; p++)
    if (producing[p]) VCHECK(!closed && !last && size == kCap, "a push stays blocked only while the queue is full and open");
  for (int c = 0; c < CONSUMERS; c++)
    if (want[c]) VCHECK(!closed && !last && size < want[c], "a pop stays blocked only while the queue lacks the items and is open");
  // Exactly once.
  std::vector<int> times(pushes.size());
  int popped = 0;
  for (auto& p : pops) for (auto& v : p.v) { times[v.id]++; popped++; }
  int pushed = 0;
  for (size_t i = 0; i < pushes.size(); i++) {
    VCHECK(times[i] <= 1, "an element comes out at most once");
    if (times[i]) VCHECK(pushes[i].ok, "only accepted elements come out");
    pushed += pushes[i].ok;
  }
  VCHECK(size == pushed - popped, "every accepted element is in the queue or came out");
  // Order.
  for (size_t a = 0; a < pops.size(); a++)
    for (size_t i = 0; i < pops[a].v.size(); i++) {
      int id = pops[a].v[i].id;
      for (size_t j = i + 1; j < pops[a].v.size(); j++) VCHECK(!(pushes[pops[a].v[j].id].end < pushes[id].start), "a batch is in push order");
      for (size_t b = 0; b < pops.size(); b++)
        if (pops[b].end < pops[a].start)
          for (auto& w : pops[b].v) VCHECK(!(pushes[id].end < pushes[w.id].start), "elements come out in push order");
      // Nothing older is left behind.
      for (size_t o = 0; o < pushes.size(); o++)
        if (pushes[o].ok && !times[o]) VCHECK(!(pushes[o].end < pushes[id].start), "elements come out in push order");
    }
  if (pops.size() > 1) verif_reach("several pops");
  // What is left is drained in order, and then pops fail.
  quiet = true;
  if (last && !closed) {
    int prev = -1;
    for (int i = 0; i < size; i++) {
      V v;
      VCHECK(q.Pop(&v), "what was pushed before the last item can be drained");
      if (prev >= 0) VCHECK(!(pushes[v.id].end < pushes[prev].start), "elements come out in push order");
      prev = v.id;
    }
    V v;
    VCHECK(!q.Pop(&v), "a drained queue is closed");
    verif_reach("drained");
  }
  q.Close();
  for (auto& t : th) t.join();
  V v;
  VCHECK(!q.Pop(&v) && !q.Push(v), "a closed queue refuses everything");
}
