// C02: callers blocked by the rate limiter under every schedule within the
// bounds, and the call statistics.
#include <thread>
#include "common.h"
#include "reverb/cc/checkpointing/checkpoint.pb.h"
#include "reverb/cc/errors.h"
#include "reverb/cc/rate_limiter.h"
using namespace deepmind::reverb;
namespace {
absl::Mutex mu;
RateLimiter* rl;
struct W {
  bool insert = false, started = false, done = false, finite = false;
  int64_t deadline = 0;
  absl::Status st;
};
W w[4];
int64_t inserts, samples, deletes;
void wait_thread(int i) {
  W& x = w[i];
  absl::Duration to = x.finite ? absl::Seconds(1 + i) : absl::InfiniteDuration();
  absl::MutexLock l(&mu);
  x.started = true;
  x.deadline = vs_now() + (1 + i) * 1000000000ll;
  if (x.insert) {
    x.st = rl->AwaitCanInsert(&mu, to);
    if (x.st.ok()) {
      VCHECK(rl->CanInsert(&mu, 1), "a released insert is admissible");
      rl->Insert(&mu);
      inserts++;
    }
  } else {
    bool could = false;
    x.st = rl->AwaitAndFinalizeSample(&mu, to);
    if (x.st.ok()) {
      samples++;
      // The sample is already counted: the difference it leaves is within the limit.
      auto c = rl->CheckpointReader(&mu);
      VCHECK(c.insert_count() - c.delete_count() >= c.min_size_to_sample() &&
             (double)c.insert_count() * c.samples_per_insert() - (double)c.sample_count() >= c.min_diff(), "a released sample was admissible");
    }
  }
  if (absl::IsDeadlineExceeded(x.st)) {
    VCHECK(errors::IsRateLimiterTimeout(x.st), "a timeout is reported as a rate limiter timeout");
    VCHECK(x.finite && vs_now() >= x.deadline, "a timeout is reported only after the timeout");
    verif_reach("timeout");
  }
  x.done = true;
}
}  // namespace
extern "C" void verif_main() {
  vs_cfg.preempt = PREEMPT;
  vs_cfg.free_switch = true;
  vs_cfg.timeouts = TIMEOUTS;
  RateLimiterCheckpoint c;
  c.set_samples_per_insert(SPI);
  c.set_min_size_to_sample(verif::range(1, 2, "min_size"));
  c.set_min_diff((double)verif::range(-1, 0, "min_diff"));
  c.set_max_diff((double)verif::range(0, 2, "max_diff"));
  inserts = verif::range(0, 3, "inserts");
  samples = verif::range(0, 3, "samples");
  deletes = verif::range(0, 1, "deletes");
  verif_assume(deletes <= inserts);
  c.set_insert_count(inserts);
  c.set_sample_count(samples);
  c.set_delete_count(deletes);
  rl = new RateLimiter(c);
  std::vector<std::thread> th;
  int ni = choose(WAITERS + 1, "inserters");
  for (int i = 0; i < WAITERS; i++) {
    w[i].insert = i < ni;
#if TIMEOUTS
    w[i].finite = flip("finite");
#endif
    th.emplace_back(wait_thread, i);
  }
  if (flip("start all")) vs_run_others();
  for (int op = 0; op < OPS; op++) {
    int k = choose(4, "op");
    {
      absl::MutexLock l(&mu);
      if (k == 0) { if (inserts <= deletes) verif_assume(false); rl->Delete(&mu); deletes++; }
      else if (k == 1) { rl->Reset(&mu); inserts = samples = deletes = 0; }
      else if (k == 2) { if (rl->MaybeCommitSample(&mu)) samples++; }
      else if (rl->AwaitCanInsert(&mu, absl::ZeroDuration()).ok()) { rl->Insert(&mu); inserts++; }
    }
    if (flip("settle")) vs_run_others();
  }
  vs_run_others();
  {
    absl::MutexLock l(&mu);
    bool ci = rl->CanInsert(&mu, 1), cs = rl->CanSample(&mu, 1);
    auto cp = rl->CheckpointReader(&mu);
    VCHECK(cp.insert_count() == inserts && cp.sample_count() == samples && cp.delete_count() == deletes, "every completed operation is counted once");
    int pi = 0, ps = 0;
    for (int i = 0; i < WAITERS; i++) {
      if (w[i].done) continue;
      verif_reach("blocked");
      VCHECK(w[i].insert ? !ci : !cs, "a caller stays blocked only while its operation is not admissible");
      (w[i].insert ? pi : ps)++;
    }
    RateLimiterInfo info = rl->Info(&mu);
    VCHECK(info.insert_stats().pending() == pi && info.sample_stats().pending() == ps, "the info counts the pending calls");
    rl->Cancel(&mu);
  }
  vs_run_others();
  for (int i = 0; i < WAITERS; i++) {
    VCHECK(w[i].done, "cancelling releases every caller");
    VCHECK(w[i].st.ok() || absl::IsDeadlineExceeded(w[i].st) || absl::IsCancelled(w[i].st), "a caller gets one of the three outcomes");
  }
  for (auto& t : th) t.join();
  absl::MutexLock l(&mu);
  VCHECK(absl::IsCancelled(rl->AwaitCanInsert(&mu, absl::InfiniteDuration())), "a cancelled limiter refuses inserts");
  VCHECK(absl::IsCancelled(rl->AwaitAndFinalizeSample(&mu, absl::InfiniteDuration())), "a cancelled limiter refuses samples");
}
