// C02: call statistics and the event log (its capacity scaled to 8).
#include <thread>
#include "common.h"
#include "reverb/cc/rate_limiter.h"
using namespace deepmind::reverb;
namespace {
struct Ev { int64_t start, blocked; bool active; };
std::vector<Ev> ev[2];  // 0: inserts, 1: samples
absl::Mutex mu;
RateLimiter* rl;
void blocked_insert() {
  absl::MutexLock l(&mu);
  size_t id = ev[0].size();
  ev[0].push_back({vs_now(), 0, true});
  int64_t t0 = vs_now();
  bool ok = rl->AwaitCanInsert(&mu, absl::InfiniteDuration()).ok();
  ev[0][id].active = false;
  ev[0][id].blocked = vs_now() - t0;
  if (ok) rl->Insert(&mu);
}
void check(int k, const RateLimiterCallStats& s) {
  int64_t completed = 0, pending = 0, limited = 0, wait = 0, pwait = 0;
  for (auto& e : ev[k]) {
    if (e.active) { pending++; pwait += vs_now() - e.start; continue; }
    completed++;
    limited += e.blocked > 0;
    wait += e.blocked;
  }
  VCHECK(s.completed() == completed, "the info reports the number of completed calls");
  VCHECK(s.pending() == pending, "the info reports the number of pending calls");
  VCHECK(s.limited() == limited, "the info reports the number of calls that had to wait");
  VCHECK(s.completed_wait_time().seconds() * 1000000000ll + s.completed_wait_time().nanos() == wait, "the info reports the time completed calls waited");
  VCHECK(s.pending_wait_time().seconds() * 1000000000ll + s.pending_wait_time().nanos() == pwait, "the info reports the time pending calls have waited");
}
}  // namespace
extern "C" void verif_main() {
  // Inserts until two more than are sampled; samples down to zero.
  rl = new RateLimiter(1.0, 1, 0, 2);
  std::vector<std::thread> th;
  bool blocked = false;
  for (int step = 0; step < OPS; step++) {
    vs_advance(BIG ? 1500000000ll : 1000);
    switch (choose(4, "op")) {
      case 0: {
        // Outstanding inserts that are blocked see this one only if admitted.
        absl::MutexLock l(&mu);
        if (!rl->CanInsert(&mu, 1)) { verif_reach("insert refused"); }
        size_t id = ev[0].size();
        ev[0].push_back({vs_now(), 0, true});
        if (rl->AwaitCanInsert(&mu, absl::ZeroDuration()).ok()) rl->Insert(&mu);
        ev[0][id].active = false;
        break;
      }
      case 1: {
        absl::MutexLock l(&mu);
        if (rl->MaybeCommitSample(&mu)) ev[1].push_back({vs_now(), 0, false});
        break;
      }
      case 2: {
        absl::MutexLock l(&mu);
        rl->CreateInstantInsertEvent(&mu);
        ev[0].push_back({vs_now(), 0, false});
        break;
      }
      case 3:
        if (th.size() < 2) { th.emplace_back(blocked_insert); vs_run_others(); }
        break;
    }
    vs_run_others();
  }
  vs_advance(7);
  {
    absl::MutexLock l(&mu);
    RateLimiterInfo info = rl->Info(&mu);
    check(0, info.insert_stats());
    check(1, info.sample_stats());
    VCHECK(info.samples_per_insert() == 1.0 && info.min_size_to_sample() == 1 && info.min_diff() == 0 && info.max_diff() == 2, "the info reports the configuration");
    uint64_t from[2];
    for (int k = 0; k < 2; k++) {
      from[k] = verif::u64("from");
      verif_assume(from[k] <= ev[k].size());
    }
    auto h = rl->GetEventHistory(&mu, from[0], from[1]);
    for (int k = 0; k < 2; k++) {
      auto& got = k == 0 ? h.insert : h.sample;
      // All completed events before the oldest active one, newest 8 at most.
      size_t end = 0;
      while (end < ev[k].size() && !ev[k][end].active) end++;
      if (end < ev[k].size()) verif_reach("active event");
      size_t n = ev[k].size();
      size_t lo = n > 8 && from[k] < n - 8 ? n - 8 : (size_t)from[k];
      if (n > 8) verif_reach("log wrapped");
      size_t want = end > lo ? end - lo : 0;
      VCHECK(got.size() == want, "the event log returns every retained completed event from the requested one on");
      for (size_t i = 0; i < got.size(); i++) {
        VCHECK(got[i].id == lo + i, "the events come with their ids in order");
        auto& e = ev[k][(size_t)verif_concrete(lo) + i];
        VCHECK(absl::ToUnixNanos(got[i].start) == e.start && absl::ToInt64Nanoseconds(got[i].blocked_for) == e.blocked, "an event carries its start and waiting time");
      }
    }
    rl->Cancel(&mu);
  }
  for (auto& t : th) t.join();
}
