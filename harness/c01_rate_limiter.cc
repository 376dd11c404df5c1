// C01: admission arithmetic of the rate limiter from an arbitrary state.
#include "common.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/checkpointing/checkpoint.pb.h"
using namespace deepmind::reverb;
namespace {
// All parameters are multiples of 1/4, so the reference is exact in integers.
struct Model {
  int64_t spi4, min4, max4, min_size, ins, sam, del;
  bool can_insert(int64_t n) const {
    if (ins + n - del <= min_size) return true;
    return (ins + n) * spi4 - 4 * sam <= max4;
  }
  bool can_sample(int64_t n) const {
    if (ins - del < min_size) return false;
    return ins * spi4 - 4 * sam - 4 * n >= min4;
  }
};
}  // namespace
extern "C" void verif_main() {
  const int64_t N = BOUND;
  Model m;
  static const int64_t kSpi[] = {4, 1, 6, 32, 0, 3};
  m.spi4 = kSpi[choose(6, "spi")];
  m.min_size = verif::range(1, N, "min_size");
  m.min4 = verif::range(-N, N, "min_diff4");
  m.max4 = verif::range(-N, N, "max_diff4");
  m.ins = verif::range(0, N, "inserts");
  m.sam = verif::range(0, N, "samples");
  m.del = verif::range(0, N, "deletes");
  verif_assume(m.del <= m.ins);
  RateLimiterCheckpoint c;
  c.set_samples_per_insert(m.spi4 * 0.25);
  c.set_min_diff((double)m.min4 * 0.25);
  c.set_max_diff((double)m.max4 * 0.25);
  c.set_min_size_to_sample(m.min_size);
  c.set_insert_count(m.ins);
  c.set_sample_count(m.sam);
  c.set_delete_count(m.del);
  RateLimiter rl(c);
  absl::Mutex mu;
  absl::MutexLock lock(&mu);
  for (int step = 0;; step++) {
    int n = (int)verif::range(1, 3, "n");
    VCHECK(rl.CanInsert(&mu, n) == m.can_insert(n), "an insert is admitted exactly when the limits allow it");
    VCHECK(rl.CanSample(&mu, n) == m.can_sample(n), "a sample is admitted exactly when the limits allow it");
    if (step == STEPS) break;
    switch (choose(5, "op")) {
      case 0:
        rl.Insert(&mu);
        m.ins++;
        break;
      case 1:
        verif_assume(m.ins > m.del);
        rl.Delete(&mu);
        m.del++;
        break;
      case 2: {
        bool want = m.can_sample(1);
        VCHECK(rl.MaybeCommitSample(&mu) == want, "a sample is committed exactly when admitted");
        if (want) { m.sam++; verif_reach("sample committed"); }
        break;
      }
      case 3:
        rl.Reset(&mu);
        m.ins = m.sam = m.del = 0;
        break;
      case 4: {
        bool can = m.can_insert(1);
        absl::Status s = rl.AwaitCanInsert(&mu, absl::ZeroDuration());
        VCHECK(s.ok() == can, "an insert that cannot wait succeeds exactly when admitted");
        if (!can) { VCHECK(absl::IsDeadlineExceeded(s), "a refused insert reports a deadline"); verif_reach("insert refused"); }
        break;
      }
    }
  }
  RateLimiterCheckpoint o = rl.CheckpointReader(&mu);
  VCHECK(o.insert_count() == m.ins && o.sample_count() == m.sam && o.delete_count() == m.del,
         "the checkpoint records the operation counts");
  VCHECK(o.min_size_to_sample() == m.min_size && o.samples_per_insert() == m.spi4 * 0.25,
         "the checkpoint records the configuration");
  VCHECK(o.min_diff() == c.min_diff() && o.max_diff() == c.max_diff(), "the checkpoint records the limits");
}
