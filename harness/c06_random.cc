// C06: the distributions defined by the uniform and prioritized selectors.
// A draw is symbolic; two draws on the same state bound the measure of every
// key's preimage: each weight interval has at most its own length, and they
// cover the whole range, so each has exactly its length.
#include "common.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
using namespace deepmind::reverb;
namespace {
struct Ent { uint64_t key; int64_t p; };
struct Ref {
  std::vector<Ent> e;
  int find(uint64_t k) { for (size_t i = 0; i < e.size(); i++) if (e[i].key == k) return (int)i; return -1; }
};
int64_t weight(int exponent, int64_t p) { return exponent == 0 ? (p != 0) : exponent == 1 ? p : p * p; }
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 4;
  Ref r;
#ifdef UNIFORM
  const bool uniform = true;
  const int exponent = 0;
  UniformSelector sel;
#else
  const bool uniform = false;
  const int exponent = choose(3, "exponent");
  PrioritizedSelector sel(exponent);
  VCHECK(sel.options().prioritized().priority_exponent() == exponent, "the options carry the exponent");
#endif
  ItemSelector* s = &sel;
  VCHECK(!s->options().is_deterministic() && s->options().uniform() == uniform, "the options name the selector");
  static const int64_t kP[] = {1, 0, 3, 60, 2, 7};
  auto prio = [&]() -> int64_t { return uniform ? 1 : kP[choose(NP, "priority")]; };
#ifdef INIT
  int n = INIT;
#else
  int n = choose(NINIT + 1, "initial");
#endif
  for (int i = 0; i < n; i++) {
    int64_t p = prio();
    VCHECK(s->Insert(i + 1, (double)p).ok(), "a new key is accepted");
    r.e.push_back({(uint64_t)i + 1, p});
  }
  for (int step = 0; step < OPS; step++) {
    int op = choose(5, "op");
    if (op == 3) { s->Clear(); r.e.clear(); continue; }
    uint64_t key = 1 + choose(n + 1, "key");
    int i = r.find(key);
    if (op == 4) {
      if (uniform) continue;
      double bad = flip("nan") ? std::numeric_limits<double>::quiet_NaN() : -1.0 - (double)prio();
      VCHECK(!s->Insert(key, bad).ok() && !s->Update(key, bad).ok(), "NaN and negative priorities are refused");
      verif_reach("bad priority");
      continue;
    }
    int64_t p = op == 1 ? 0 : prio();
    if (op == 0) {
      VCHECK(s->Insert(key, (double)p).ok() == (i < 0), "an insert succeeds exactly for a new key");
      if (i < 0) r.e.push_back({key, p});
    } else if (op == 1) {
      VCHECK(s->Delete(key).ok() == (i >= 0), "a delete succeeds exactly for a present key");
      if (i >= 0) r.e.erase(r.e.begin() + i);
    } else {
      VCHECK(s->Update(key, (double)p).ok() == (i >= 0), "an update succeeds exactly for a present key");
      if (i >= 0) r.e[i].p = p;
    }
  }
  if (r.e.empty()) return;
  int64_t total = 0;
  const int64_t size = r.e.size();
  for (auto& x : r.e) total += weight(exponent, x.p);
  auto a = s->Sample();
  double da = v_rng.last;
  uint64_t ia = v_rng.last_int, sa = v_rng.last_span;
  int drawn = v_rng.draws;
  int i = r.find(a.key);
  VCHECK(i >= 0, "the sampled key is present");
  if (uniform) {
    // 1/n each: integer draws over a span of n, distinct draws to distinct keys.
    VCHECK(a.probability == 1.0 / (double)size, "the reported probability is one over the number of keys");
    if (size > 1) {
      auto b = s->Sample();
      VCHECK(drawn == 1 && sa == (uint64_t)size, "one draw over exactly as many values as there are keys");
      VCHECK((a.key == b.key) == (ia == v_rng.last_int), "each drawn value selects a key of its own");
      verif_reach("uniform pair");
    }
    return;
  }
  int64_t w = weight(exponent, r.e[i].p);
  if (total == 0) {
    verif_reach("all weights zero");
    VCHECK(a.probability == 1.0 / (double)size, "without weights every key is equally likely");
    auto b = s->Sample();
    double d = (v_rng.last - da) * (double)size;
    VCHECK(a.key != b.key || (d < 1.0 && d > -1.0), "no key gets more than its share");
    return;
  }
  VCHECK(w > 0, "a key of weight zero is never sampled");
  VCHECK(a.probability == (double)w / (double)total, "the reported probability is weight over total");
  auto b = s->Sample();
  if (a.key == b.key) {
    double d = (v_rng.last - da) * (double)total;
    VCHECK(d < (double)w && d > -(double)w, "no key gets more than its weight");
    verif_reach("weighted pair");
  }
}
