// C23: requests handed to a table's worker thread, compared with every
// sequential order in which the worker could have served them.
#include <thread>
#include "table_common.h"
using namespace deepmind::reverb;
using namespace tm;
#ifndef KEYS
#define KEYS (PREFILL + 1)
#endif
namespace {
// Refuses negative priorities.
struct Strict : FifoSelector {
  absl::Status Update(Key k, double p) override { return p < 0 ? absl::InvalidArgumentError("negative") : FifoSelector::Update(k, p); }
};
enum OpKind { kInsert, kSample, kUpdate, kDelete, kReset, kSampleSoon, kBadMutate };
struct Got { uint64_t key; int times; double prio; int64_t size; };
constexpr int kNever = 1 << 20;
struct Op {
  int kind, batch;
  uint64_t key;
  double prio;
  // seq numbers: handed over [start, entered], answered at end.
  int start = -1, entered = -1, end = kNever;
  int64_t from = 0, until = kVsInf;  // clock
  int answers = 0;
  absl::Status status;
  std::vector<Got> got;
  bool more = true;  // kInsert: further inserts are welcome
  std::shared_ptr<Table::SamplingCallback> scb;
  std::shared_ptr<std::function<void(const absl::Status&)>> icb;
};
struct It { uint64_t key; double prio; int times; };
struct S {
  std::vector<It> it;  // in insertion order
  int64_t ins = 0, sam = 0, del = 0, unique = 0;
};
int64_t max_size, min_size, min4, max4;
int max_times;
std::vector<Op> ops;
int seq = 0;
bool closing = false;
int closed_at = kNever;
std::shared_ptr<Table> t;
Harness maker;

bool can_insert(const S& s) { return s.ins + 1 - s.del <= min_size || (s.ins + 1 - s.sam) * 4 <= max4; }
bool can_sample(const S& s) { return s.ins - s.del >= min_size && (s.ins - s.sam - 1) * 4 >= min4; }
int find(const S& s, uint64_t k) { for (size_t i = 0; i < s.it.size(); i++) if (s.it[i].key == k) return (int)i; return -1; }
bool sampling(const Op& o) { return o.kind == kSample || o.kind == kSampleSoon; }
// Does part `n` of op; false when it could not have had this effect.
bool apply(S* s, const Op& o, int n) {
  int i = find(*s, o.key);
  switch (o.kind) {
    case kInsert:
      if (!can_insert(*s)) return false;
      if (i >= 0) { s->it[i].prio = o.prio; return true; }
      s->it.push_back({o.key, o.prio, 0});
      if ((int64_t)s->it.size() > max_size) { s->it.erase(s->it.begin()); s->del++; }
      s->ins++;
      return true;
    case kUpdate:
      if (i >= 0) s->it[i].prio = o.prio;
      return true;
    case kDelete:
    case kBadMutate:
      if (i >= 0) { s->it.erase(s->it.begin() + i); s->del++; }
      return true;
    case kReset: *s = S(); return true;
  }
  if (!can_sample(*s) || s->it.empty()) return false;
  It& x = s->it[0];
  if (x.key != o.got[n].key) return false;
  s->sam++;
  if (x.times++ == 0) s->unique++;
  if (x.times != o.got[n].times || x.prio != o.got[n].prio || o.got[n].size != (int64_t)s->it.size()) return false;
  if (x.times == max_times) { s->it.erase(s->it.begin()); s->del++; }
  return true;
}
S final_state;
bool same_final(const S& s) {
  if (s.it.size() != final_state.it.size() || s.ins != final_state.ins || s.sam != final_state.sam || s.del != final_state.del || s.unique != final_state.unique) return false;
  for (size_t i = 0; i < s.it.size(); i++) {
    int k = find(final_state, s.it[i].key);
    if (k < 0 || final_state.it[k].times != s.it[i].times || final_state.it[k].prio != s.it[i].prio) return false;
  }
  return true;
}
// done[i]: parts of op i that have been done.  Inserts may be left over (they
// are still queued, or were dropped by closing) only where that is allowed;
// samples of requests not answered with a result are unknown unless reported.
bool search(const S& s, std::vector<int>& done, bool left) {
  bool all = true, pending = false;
  for (size_t i = 0; i < ops.size(); i++) {
    const Op& o = ops[i];
    int parts = o.entered < 0 ? 0 : sampling(o) ? (int)o.got.size() : 1;
    if (done[i] == parts) continue;
    if (o.kind == kInsert) pending = true; else all = false;
    bool first = true;  // nothing that must come before it is missing
    for (size_t j = 0; j < ops.size(); j++) {
      const Op& p = ops[j];
      if (j == i || p.entered < 0) continue;
      int pp = sampling(p) ? (int)p.got.size() : 1;
      if (done[j] == pp) continue;
      if (o.kind == kInsert && p.kind == kInsert ? p.entered < o.start : p.kind != kInsert && p.end < o.start) first = false;
    }
    if (!first) continue;
    S n = s;
    if (!apply(&n, o, done[i])) continue;
    done[i]++;
    bool ok = search(n, done, left);
    done[i]--;
    if (ok) return true;
  }
  return all && same_final(s) && (!pending || left || !can_insert(s));
}
void run(int i) {
  Op& o = ops[i];
  o.start = seq++;
  o.from = vs_now();
  switch (o.kind) {
    case kInsert: {
      o.icb = std::make_shared<std::function<void(const absl::Status&)>>([i](const absl::Status& s) {
        Op& o = ops[i];
        VCHECK(++o.answers == 1, "an inserter is told at most once that it may go on");
        o.status = s;
        o.end = seq++;
      });
      o.entered = kNever;
      VCHECK(t->InsertOrAssignAsync(maker.item(o.key, o.prio, 0), &o.more, o.icb).ok(), "an insert is accepted");
      break;
    }
    case kSample:
    case kSampleSoon: {
      o.scb = std::make_shared<Table::SamplingCallback>([i](Table::SampleRequest* r) {
        Op& o = ops[i];
        VCHECK(++o.answers == 1, "a request is answered at most once");
        o.status = r->status;
        for (auto& x : r->samples) o.got.push_back({x.ref->item.key(), x.times_sampled, x.priority, x.table_size});
        o.end = seq++;
        if (o.status.ok()) {
          VCHECK(o.got.size() >= 1 && (int)o.got.size() <= o.batch, "as many samples as asked for, at least one");
        } else if (absl::IsDeadlineExceeded(o.status)) {
          verif_reach("a deadline error");
          VCHECK(vs_now() >= o.until, "a deadline error comes only after the deadline");
        } else {
          VCHECK(absl::IsCancelled(o.status) && closing, "else cancelled, by closing the table");
        }
        if (!o.status.ok()) VCHECK(o.got.empty(), "a request that has taken samples returns them");
      });
      if (o.kind == kSampleSoon) o.until = vs_now() + 1000000000;
      o.entered = kNever;
      t->EnqueSampleRequest(o.batch, o.scb, o.kind == kSampleSoon ? absl::Seconds(1) : absl::InfiniteDuration());
      break;
    }
    case kUpdate: { KeyWithPriority k; k.set_key(o.key); k.set_priority(o.prio); o.entered = kNever; VCHECK(t->MutateItems({k}, {}).ok(), "an update succeeds"); o.end = seq++; break; }
    case kDelete: o.entered = kNever; VCHECK(t->MutateItems({}, {o.key}).ok(), "a deletion succeeds"); o.end = seq++; break;
    case kBadMutate: {
      KeyWithPriority k;
      k.set_key(1);
      k.set_priority(-1);
      o.entered = kNever;
      auto s = t->MutateItems({k}, {o.key});
      o.end = seq++;
      break;
    }
    case kReset: o.entered = kNever; VCHECK(t->Reset().ok(), "a reset succeeds"); o.end = seq++; break;
  }
  o.entered = seq++;
}
bool may_go_on(const void* p) { return ((const Op*)p)->answers > 0; }
void take_final() {
  final_state = S();
  auto cp = t->Checkpoint().checkpoint;
  final_state.ins = cp.rate_limiter().insert_count();
  final_state.sam = cp.rate_limiter().sample_count();
  final_state.del = cp.rate_limiter().delete_count();
  final_state.unique = cp.num_unique_samples();
  for (auto& x : cp.items()) final_state.it.push_back({x.key(), x.priority(), x.times_sampled()});
}
}  // namespace
extern "C" void verif_main() {
  vs_cfg.idle_is_bug = true;
  max_size = flip("big table") ? 20 : SIZE;  // several or one insert may be queued
  max_times = choose(2, "max_times_sampled") ? -1 : TIMES;
  min_size = 1;
  min4 = 4 * verif::range(MINLO, 0, "min_diff");
  max4 = 4 * verif::range(1, MAXHI, "max_diff");
  auto ext = std::make_shared<Ext>();
  ext->async = true;
  auto executor = std::make_shared<TaskExecutor>(1, "callbacks");
  t = std::make_shared<Table>("t", std::make_shared<Strict>(), make_selector(kFifo), max_size, max_times,
                              std::make_shared<RateLimiter>(1.0, min_size, (double)min4 * 0.25, (double)max4 * 0.25),
                              EXT ? std::vector<std::shared_ptr<TableExtension>>{ext} : std::vector<std::shared_ptr<TableExtension>>{});
  t->EnableTableWorker(executor);
  int kinds[7], nk = 0;
  for (int k = 0; k < 7; k++) if (OPSET >> k & 1) kinds[nk++] = k;
  int n = THREADS * PER;
  for (int i = 0; i < PREFILL + n; i++) {
    Op o;
    o.kind = i < PREFILL ? (int)kInsert : kinds[choose(nk, "op")];
    o.key = o.kind == kInsert || o.kind == kUpdate || o.kind == kDelete || o.kind == kBadMutate ? 1 + (i < PREFILL ? i : choose(KEYS, "key")) : 0;
    o.prio = 1.0 + i;
    o.batch = sampling(o) ? 1 + choose(MAXBATCH, "batch") : 0;
    ops.push_back(o);
  }
  for (int i = 0; i < PREFILL; i++) run(i);
  vs_run_others();
  vs_cfg.preempt = PREEMPT;
  vs_cfg.delays = DELAYS;
  vs_cfg.timeouts = TIMERS;
  std::vector<std::thread> th;
  for (int i = 0; i < THREADS; i++)
    th.emplace_back([i] {
      for (int k = 0; k < PER; k++) {
        Op& o = ops[PREFILL + i * PER + k];
        run(PREFILL + i * PER + k);
        // A well-behaved client waits until it may go on.
        if (o.kind == kInsert && !o.more && k + 1 < PER) vs_wait(nullptr, may_go_on, &o, kVsInf);
        if (closing) return;
      }
    });
#if CLOSE == 1
  // Closed, or destroyed, at any time.
  bool destroy = false;
  closing = true;
  t->Close();
  vs_run_others();
#else
  vs_run_others();
  // Everything has been answered or is blocked.
  vs_cfg.preempt = vs_cfg.timeouts = vs_cfg.delays = 0;
  take_final();
  bool blocked = false;
  for (auto& o : ops) {
    if (o.start < 0) continue;
    if (sampling(o) && !o.answers) {
      blocked = true;
      VCHECK(!can_sample(final_state), "a request waits only while the limits refuse it");
      VCHECK(vs_now() < o.until, "a request waits no longer than its timeout");
    }
    if (o.kind == kInsert && !o.more && !o.answers) VCHECK(!can_insert(final_state), "an inserter is kept waiting only while the limits refuse inserts");
    if (!sampling(o) && o.kind != kInsert) VCHECK(o.end != kNever, "other calls do not block");
  }
  if (blocked) verif_reach("a request is blocked at the end");
  bool all_known = true;
  for (auto& o : ops) if (sampling(o) && o.start >= 0 && !o.answers && o.batch > 1) all_known = false;
  if (!all_known) {}
  // Time passes.
  bool soon = false;
  for (auto& o : ops) if (o.kind == kSampleSoon && o.start >= 0 && !o.answers) soon = true;
  if (soon) {
    vs_advance(2000000000);
    vs_run_others();
    for (auto& o : ops)
      if (o.kind == kSampleSoon && o.start >= 0) VCHECK(o.answers == 1, "a request is answered when its timeout has passed");
  }
  take_final();
  closing = true;
  bool destroy = flip("destroy without closing");
  if (!destroy) {
    t->Close();
    vs_run_others();
  }
#endif
  if (!destroy) {
    S before = final_state;
    for (auto& o : ops) {
      if (o.start < 0) continue;
      if (sampling(o)) VCHECK(o.answers == 1, "every request has been answered once the table is closed");
      if (o.kind == kInsert && !o.more) VCHECK(o.answers == 1, "every waiting inserter has been told when the table is closed");
    }
    take_final();
#if CLOSE != 1
    VCHECK(same_final(before), "closing changes nothing: what could be done has been done before");
#endif
    std::vector<int> done(ops.size());
    VCHECK(search(S(), done, CLOSE == 1), "the answers and the state are those of a sequential order of the requests");
  }
  t.reset();
  if (destroy) vs_run_others();
  for (auto& o : ops) {
    if (o.start < 0) continue;
    if (sampling(o)) VCHECK(o.answers == 1, "every request has been answered once the table is destroyed");
    if (o.kind == kInsert && !o.more) VCHECK(o.answers == 1, "every waiting inserter has been told when the table is destroyed");
  }
  for (auto& x : th) x.join();
  executor->Close();
}
