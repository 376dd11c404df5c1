// C05: the order defined by the FIFO, LIFO and heap selectors.
#include "common.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
using namespace deepmind::reverb;
#ifndef DRAIN
#define DRAIN 1000
#endif
namespace {
struct Ent { uint64_t key; double prio; int ins, upd; };
struct Ref {
  int kind, clock = 0;
  std::vector<Ent> e;
  int find(uint64_t k) { for (size_t i = 0; i < e.size(); i++) if (e[i].key == k) return (int)i; return -1; }
  // True when entry a is to be selected before entry b.
  bool before(const Ent& a, const Ent& b) {
    switch (kind) {
      case 0: return a.ins < b.ins;
      case 1: return a.ins > b.ins;
      case 2: return a.prio < b.prio || (a.prio == b.prio && a.upd < b.upd);
      default: return a.prio > b.prio || (a.prio == b.prio && a.upd < b.upd);
    }
  }
};
double prio(int kind) {
  if (kind < 2) return 1.0;
#ifdef RAW
  double d = verif::f64("priority");
#else
  double d = (double)(int16_t)verif_sym(16, "priority") * 0.5;
#endif
  verif_assume(d == d);
  return d;
}
void check_top(ItemSelector* s, Ref& r) {
  auto got = s->Sample();
  int i = r.find(got.key);
  VCHECK(i >= 0, "the sampled key is present");
  for (auto& o : r.e)
    if (o.key != got.key) VCHECK(r.before(r.e[i], o), "the sampled key comes first in the selector's order");
  VCHECK(got.probability == 1.0, "a deterministic selector reports probability one");
}
}  // namespace
extern "C" void verif_main() {
  Ref r;
#ifdef KIND
  r.kind = KIND;
#else
  r.kind = choose(4, "kind");
#endif
  std::unique_ptr<ItemSelector> s;
  switch (r.kind) {
    case 0: s.reset(new FifoSelector); break;
    case 1: s.reset(new LifoSelector); break;
    case 2: s.reset(new HeapSelector(true)); break;
    default: s.reset(new HeapSelector(false)); break;
  }
  KeyDistributionOptions o = s->options();
  VCHECK(o.is_deterministic(), "the selector is deterministic");
  VCHECK(o.fifo() == (r.kind == 0) && o.lifo() == (r.kind == 1) && o.has_heap() == (r.kind >= 2), "the options name the selector");
  if (r.kind >= 2) VCHECK(o.heap().min_heap() == (r.kind == 2), "the options tell min from max heap");
#ifdef INIT
  int n = INIT;
#else
  int n = choose(NINIT + 1, "initial");
#endif
  for (int i = 0; i < n; i++) {
    double p = prio(r.kind);
#ifdef INIT
    // Any heap can be built by inserting its nodes level by level.
    if (i > 0) verif_assume(r.kind == 2 ? p >= r.e[(i - 1) / 2].prio : p <= r.e[(i - 1) / 2].prio);
#endif
    VCHECK(s->Insert(i + 1, p).ok(), "a new key is accepted");
    r.e.push_back({(uint64_t)i + 1, p, r.clock, r.clock});
    r.clock++;
  }
  for (int step = 0; step < OPS; step++) {
    #ifdef INIT
    int op = choose(3, "op");
#else
    int op = choose(4, "op");
#endif
    if (op == 3) {
      s->Clear();
      r.e.clear();
      if (step == 0) verif_reach("cleared");
      continue;
    }
    #ifdef INIT
    uint64_t key = op == 0 ? 100 : 1 + choose(n, "key");
#else
    uint64_t key = 1 + choose(n + 1, "key");
#endif
    double p = op == 1 ? 0 : prio(r.kind);
    int i = r.find(key);
    if (op == 0) {
      absl::Status st = s->Insert(key, p);
      VCHECK(st.ok() == (i < 0), "an insert succeeds exactly for a new key");
      if (i < 0) { r.e.push_back({key, p, r.clock, r.clock}); r.clock++; }
      else { verif_reach("duplicate insert"); VCHECK(absl::IsInvalidArgument(st), "a duplicate insert is an invalid argument"); }
    } else if (op == 1) {
      absl::Status st = s->Delete(key);
      VCHECK(st.ok() == (i >= 0), "a delete succeeds exactly for a present key");
      if (i >= 0) r.e.erase(r.e.begin() + i);
      else verif_reach("missing delete");
    } else {
      absl::Status st = s->Update(key, p);
      VCHECK(st.ok() == (i >= 0), "an update succeeds exactly for a present key");
      if (i >= 0) { r.e[i].prio = p; r.e[i].upd = r.clock++; }
      else verif_reach("missing update");
    }
  }
  int drain = DRAIN;
  while (!r.e.empty() && drain-- > 0) {
    check_top(s.get(), r);
    uint64_t k = s->Sample().key;
    VCHECK(s->Delete(k).ok(), "the sampled key can be deleted");
    r.e.erase(r.e.begin() + r.find(k));
    if (r.e.empty()) verif_reach("drained");
  }
}
