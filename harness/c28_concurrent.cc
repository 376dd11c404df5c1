// C28: concurrent synchronous calls on one table, compared with every
// sequential order of the same calls.
#include <thread>
#include "table_common.h"
using namespace deepmind::reverb;
using namespace tm;
#ifndef KEYS
#define KEYS (PREFILL + 1)
#endif
namespace {
enum OpKind { kInsert, kSample, kUpdate, kDelete, kReset, kInfo };
struct Got { uint64_t key; int times; double prio; int64_t size; };
struct Op {
  int kind, batch;
  uint64_t key;
  double prio;
  int start = -1, end = -1;
  bool ok = false;
  std::vector<Got> got;
  int64_t size = 0;  // kInfo
};
struct It { uint64_t key; double prio; int times, upd; };
struct S {
  std::vector<It> it;  // in insertion order
  int64_t ins = 0, sam = 0, del = 0, unique = 0;
  int clock = 0;
};
int sk;
int64_t max_size, min_size, min4, max4;
int max_times;
std::vector<Op> ops;
int seq = 0;
bool quiet = false;
std::shared_ptr<Table> t;
Harness maker;

bool can_insert(const S& s) { return s.ins + 1 - s.del <= min_size || (s.ins + 1 - s.sam) * 4 <= max4; }
bool can_sample(const S& s) { return s.ins - s.del >= min_size && (s.ins - s.sam - 1) * 4 >= min4; }
int find(const S& s, uint64_t k) { for (size_t i = 0; i < s.it.size(); i++) if (s.it[i].key == k) return (int)i; return -1; }
// Applies op; false when it could not have given its result in this state.
bool apply(S* s, const Op& o) {
  int i = find(*s, o.key);
  switch (o.kind) {
    case kInsert:
      if (i >= 0) { s->it[i].prio = o.prio; s->it[i].upd = s->clock++; return true; }
      if (!can_insert(*s)) return false;
      s->it.push_back({o.key, o.prio, 0, s->clock++});
      if ((int64_t)s->it.size() > max_size) { s->it.erase(s->it.begin()); s->del++; }
      s->ins++;
      return true;
    case kUpdate:
      if (i >= 0) { s->it[i].prio = o.prio; s->it[i].upd = s->clock++; }
      return true;
    case kDelete:
      if (i >= 0) { s->it.erase(s->it.begin() + i); s->del++; }
      return true;
    case kReset: { int c = s->clock; *s = S(); s->clock = c; return true; }
    case kInfo: return o.size == (int64_t)s->it.size();
    case kSample:
      for (size_t n = 0; n < o.got.size(); n++) {
        if (!can_sample(*s)) return false;
        int b = 0;
        if (sk == kMinHeap)
          for (size_t k = 1; k < s->it.size(); k++)
            if (s->it[k].prio < s->it[b].prio || (s->it[k].prio == s->it[b].prio && s->it[k].upd < s->it[b].upd)) b = (int)k;
        It& x = s->it[b];
        if (x.key != o.got[n].key) return false;
        s->sam++;
        if (x.times++ == 0) s->unique++;
        if (x.times != o.got[n].times || x.prio != o.got[n].prio || o.got[n].size != (int64_t)s->it.size()) return false;
        if (x.times == max_times) { s->it.erase(s->it.begin() + b); s->del++; }
      }
      return (int)o.got.size() == o.batch || !can_sample(*s);
  }
  return false;
}
S final_state;
bool same_final(const S& s) {
  if (s.it.size() != final_state.it.size() || s.ins != final_state.ins || s.sam != final_state.sam || s.del != final_state.del || s.unique != final_state.unique) return false;
  for (auto& x : s.it) {
    int i = find(final_state, x.key);
    if (i < 0 || final_state.it[i].times != x.times || final_state.it[i].prio != x.prio) return false;
  }
  return true;
}
bool search(const S& s, unsigned done) {
  bool all = true;
  for (size_t i = 0; i < ops.size(); i++) {
    if (!ops[i].ok || (done >> i & 1)) continue;
    all = false;
    bool first = true;  // nothing that must come before it is missing
    for (size_t j = 0; j < ops.size(); j++)
      if (j != i && ops[j].ok && !(done >> j & 1) && ops[j].end < ops[i].start) first = false;
    if (!first) continue;
    S n = s;
    if (apply(&n, ops[i]) && search(n, done | 1u << i)) return true;
  }
  return all && same_final(s);
}
void run(int i) {
  Op& o = ops[i];
  o.start = seq++;
  absl::Status s;
  switch (o.kind) {
    case kInsert: s = t->InsertOrAssign(maker.item(o.key, o.prio, 0), absl::InfiniteDuration()); break;
    case kSample: {
      std::vector<Table::SampledItem> out;
      s = t->SampleFlexibleBatch(&out, o.batch, absl::InfiniteDuration());
      for (auto& x : out) o.got.push_back({x.ref->item.key(), x.times_sampled, x.priority, x.table_size});
      break;
    }
    case kUpdate: { KeyWithPriority k; k.set_key(o.key); k.set_priority(o.prio); s = t->MutateItems({k}, {}); break; }
    case kDelete: s = t->MutateItems({}, {o.key}); break;
    case kReset: s = t->Reset(); break;
    case kInfo: o.size = t->info().current_size(); break;
  }
  if (quiet) {
    VCHECK(absl::IsCancelled(s), "a blocked call reports the closing of the table");
    return;
  }
  VCHECK(s.ok(), "a call succeeds");
  o.ok = true;
  o.end = seq++;
}
}  // namespace
extern "C" void verif_main() {
  sk = SK;
  max_size = 2;
  max_times = TIMES;
  min_size = 1;
  min4 = 4 * verif::range(-1, 0, "min_diff");
  max4 = 4 * verif::range(1, 3, "max_diff");
  t = std::make_shared<Table>("t", make_selector(sk), make_selector(kFifo), max_size, max_times,
                              std::make_shared<RateLimiter>(1.0, min_size, (double)min4 * 0.25, (double)max4 * 0.25));
  int kinds[6], nk = 0;
  for (int k = 0; k < 6; k++) if (OPSET >> k & 1) kinds[nk++] = k;
  int n = THREADS * PER;
  for (int i = 0; i < PREFILL + n; i++) {
    Op o;
    o.kind = i < PREFILL ? (int)kInsert : kinds[choose(nk, "op")];
    o.key = o.kind == kInsert || o.kind == kUpdate || o.kind == kDelete ? 1 + (i < PREFILL ? i : choose(KEYS, "key")) : 0;
    o.prio = o.kind == kInsert || o.kind == kUpdate ? (sk == kMinHeap ? (double)verif::range(0, 3, "prio") : 1.0 + i) : 0;
    o.batch = o.kind == kSample ? 1 + choose(MAXBATCH, "batch") : 0;
    ops.push_back(o);
  }
  for (int i = 0; i < PREFILL; i++) {
    // The limits admit the first insert, and more only up to max_diff.
    if (i > 0 && (i + 1) * 4 > max4) { ops.erase(ops.begin() + i, ops.begin() + PREFILL); break; }
    run(i);
  }
  int base = (int)ops.size() - n;
  vs_cfg.preempt = PREEMPT;
  vs_cfg.free_switch = true;
  std::vector<std::thread> th;
  for (int i = 0; i < THREADS; i++) th.emplace_back([i, base] { for (int k = 0; k < PER && !quiet; k++) run(base + i * PER + k); });
  vs_run_others();
  // Everything has returned or is blocked.
  vs_cfg.preempt = 0;
  auto cp = t->Checkpoint().checkpoint;
  final_state.ins = cp.rate_limiter().insert_count();
  final_state.sam = cp.rate_limiter().sample_count();
  final_state.del = cp.rate_limiter().delete_count();
  final_state.unique = cp.num_unique_samples();
  for (auto& x : cp.items()) final_state.it.push_back({x.key(), x.priority(), x.times_sampled(), 0});
  bool blocked = false;
  for (auto& o : ops) {
    if (o.ok || o.start < 0) continue;
    blocked = true;
    if (o.kind == kInsert) VCHECK(!can_insert(final_state), "an insert stays blocked only while the limits refuse it");
    else if (o.kind == kSample) VCHECK(!can_sample(final_state), "a sample stays blocked only while the limits refuse it");
    else VCHECK(false, "only inserts and samples block");
  }
  if (blocked) verif_reach("a call is blocked at the end");
  VCHECK(search(S(), 0), "the results and the state are those of a sequential order of the calls");
  quiet = true;
  t->Close();
  for (auto& x : th) x.join();
  auto cp2 = t->Checkpoint().checkpoint;
  VCHECK(cp2.SerializeAsString() == cp.SerializeAsString(), "cancelled calls change nothing");
  t.reset();
}
