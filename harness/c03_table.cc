// Table operations against the reference model of table_common.h.  Which
// operations and configurations are explored is chosen by definitions:
//   SK/RK sampler and remover kinds, SIZE capacities, TIMES sampling limits,
//   LIM limiter choice, OPS operations, OPSET a bit set of operation kinds.
#include "table_common.h"
using namespace deepmind::reverb;
using namespace tm;
#ifndef NEP
#define NEP 2
#endif
#ifndef MAXBATCH
#define MAXBATCH 2
#endif
namespace {
Harness h;
// Keys are arbitrary 64 bit numbers; each one named is new or equal to an
// earlier one, which the comparisons in the code decide.
uint64_t key() {
  uint64_t k = verif::u64("key");
  h.keys.push_back(k);
  return k;
}
#ifdef NPRIO
double prio() { return 1.0 + choose(NPRIO, "prio"); }
#else
double prio() { return (double)(int8_t)verif_sym(8, "prio") * 0.5; }
#endif
}  // namespace
extern "C" void verif_main() {
  h.skind = SK;
  h.rkind = RK;
  h.max_size = SIZE;
  h.max_times = TIMES;
  switch (LIM) {
    case 0: break;
    case 1: h.lim.min4 = -8; h.lim.max4 = 8; break;                       // about 2 apart
    case 2: h.lim.min_size = 2; break;
    case 3: h.lim.min4 = 0; h.lim.max4 = 12; break;                       // queue like
    case 4: h.lim.spi4 = 6; h.lim.min4 = -6; h.lim.max4 = 9; break;
  }
  h.init();
#ifdef PREFILL
  // Any number of items first, so that the operations below start from a
  // partly or completely full table.
  int n = choose(PREFILL + 1, "prefill");
  for (int i = 0; i < n; i++) h.insert(key(), prio(), choose(NEP, "episodes"));
#endif
  for (int step = 0; step < OPS; step++) {
    static const int all[] = {0, 1, 2, 3, 4, 5, 6, 7};
    int ops[9], n = 0;
    for (int o : all) if ((OPSET >> o) & 1) ops[n++] = o;
    switch (ops[choose(n, "op")]) {
      case 0: {
        size_t before = h.m.size();
        h.insert(key(), prio(), choose(NEP, "episodes"));
        if (before == (size_t)h.max_size && h.m.size() == before) verif_reach("insert into a full table");
        break;
      }
      case 1: h.sample(1 + choose(MAXBATCH, "batch")); break;
      case 2: h.mutate({{key(), prio()}}, {}); break;
      case 3: h.mutate({}, {key()}); break;
      case 4: {
        uint64_t a = key(), b = key(), c = key();
        h.mutate({{a, prio()}, {b, prio()}}, {c, b == c ? a : b});
        break;
      }
      case 5: h.reset(); break;
      case 6: {
        // A malformed item changes nothing.
        Table::Item it = h.item(key(), 1, 1);
        int bad = choose(3, "bad");
        if (bad == 0) it.item.mutable_flat_trajectory()->clear_columns();
        else if (bad == 1) it.chunks.pop_back();
        else std::swap(it.chunks[0], it.chunks[1]);
        VCHECK(absl::IsInvalidArgument(h.t->InsertOrAssign(it, absl::ZeroDuration())), "a malformed item is refused");
        verif_reach("malformed item");
        break;
      }
      case 7: {
        // A priority the selectors refuse changes nothing (on a table whose
        // limits would admit the insert).
        double p = flip("nan") ? std::numeric_limits<double>::quiet_NaN() : -1.0;
        uint64_t k = key();
        bool update = h.find(k) >= 0;
        if (!update && !h.can_insert(1)) break;
        absl::Status st;
        if (update && flip("mutate")) {
          KeyWithPriority u;
          u.set_key(k);
          u.set_priority(p);
          st = h.t->MutateItems({u}, {});
        } else {
          st = h.t->InsertOrAssign(h.item(k, p, 0), absl::ZeroDuration());
        }
        VCHECK(absl::IsInvalidArgument(st), "an invalid priority is refused");
        verif_reach("invalid priority");
        break;
      }
    }
#ifndef CHECK_END
    h.check();
#endif
  }
  h.check();
  if (h.deleted_eps > 0) verif_reach("deleted episode");
  if (h.unique > 0) verif_reach("unique sample");
  if (h.max_times > 0 && h.del > 0) verif_reach("sampling limit or eviction");
  auto ext = h.ext;
  h.t.reset();
  VCHECK(ext->registered == 0, "the extension is unregistered with the table");
}
