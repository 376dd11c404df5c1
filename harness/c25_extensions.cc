// C25: what synchronous and asynchronous extensions are told, against the
// table's own history.
#include <thread>
#include "table_common.h"
#include "reverb/cc/table_extensions/base.h"
using namespace deepmind::reverb;
using namespace tm;
namespace {
struct Rec : TableExtensionBase {
  bool async;
  std::vector<Event> log;
  explicit Rec(bool a) : async(a) {}
  bool CanRunAsync() const override { return async; }
  std::string DebugString() const override { return "Rec"; }
  void add(char k, const ExtensionItem& i) { log.push_back({k, i.ref->item.key(), i.priority, i.times_sampled}); }
  void ApplyOnInsert(const ExtensionItem& i) override { add('i', i); }
  void ApplyOnDelete(const ExtensionItem& i) override { add('d', i); }
  void ApplyOnUpdate(const ExtensionItem& i) override { add('u', i); }
  void ApplyOnSample(const ExtensionItem& i) override { add('s', i); }
  void ApplyOnReset() override { log.push_back({'r', 0, 0, 0}); }
};
enum OpKind { kInsert, kSample, kUpdate, kDelete, kReset, kSwap };
struct Op {
  int kind;
  uint64_t key;
  double prio;
  bool more = true, answered = false;
  std::shared_ptr<Table::SamplingCallback> scb;
  std::shared_ptr<std::function<void(const absl::Status&)>> icb;
  size_t told[8] = {};
};
std::vector<Op> ops;
std::vector<std::shared_ptr<Rec>> recs;
std::shared_ptr<Table> t;
Harness maker;
int max_times;
bool closing = false;
bool is_sync(const Rec& r) { return !WORKER || !r.async; }
struct Item { uint64_t key; double prio; int times; };
struct State {
  std::vector<Item> it;
  int64_t ins = 0, sam = 0, del = 0, updates = 0, resets = 0;
};
// Follows the notifications; each must fit what came before.
State replay(const Rec& r, size_t limit = ~0ull) {
  State s;
  for (auto& e : r.log) {
    size_t k = 0;
    while (k < s.it.size() && s.it[k].key != e.key) k++;
    switch (e.kind) {
      case 'i':
        VCHECK(k == s.it.size(), "an item is reported inserted once");
        VCHECK(e.times == 0, "a new item has not been sampled");
        s.it.push_back({e.key, e.prio, 0});
        s.ins++;
        break;
      case 'd':
        VCHECK(k < s.it.size(), "an item is reported deleted once, after its insertion");
        VCHECK(s.it[k].prio == e.prio && s.it[k].times == e.times, "a deletion is reported with the state of the item");
        s.it.erase(s.it.begin() + k);
        s.del++;
        break;
      case 'u':
        VCHECK(k < s.it.size() && s.it[k].times == e.times, "an update is reported with the state of the item");
        s.it[k].prio = e.prio;
        s.updates++;
        break;
      case 's':
        VCHECK(k < s.it.size() && s.it[k].prio == e.prio && s.it[k].times + 1 == e.times, "a sample is reported with the state of the item");
        s.it[k].times++;
        s.sam++;
        break;
      default: {
        auto n = s.resets + 1;
        s = State();
        s.resets = n;
      }
    }
  }
  return s;
}
std::vector<Table::SampledItem> dummy;
void run(int i) {
  Op& o = ops[i];
  switch (o.kind) {
    case kInsert:
#if WORKER
      o.icb = std::make_shared<std::function<void(const absl::Status&)>>([](const absl::Status&) {});
      VCHECK(t->InsertOrAssignAsync(maker.item(o.key, o.prio, 0), &o.more, o.icb).ok(), "an insert is accepted");
#else
      VCHECK(t->InsertOrAssign(maker.item(o.key, o.prio, 0)).ok(), "an insert succeeds");
#endif
      break;
    case kSample:
#if WORKER
      o.scb = std::make_shared<Table::SamplingCallback>([i](Table::SampleRequest* r) {
        for (auto& x : r->samples)
          for (auto& e : recs)
            if (is_sync(*e)) {
              bool found = false;
              for (auto& l : e->log) if (l.kind == 's' && l.key == x.ref->item.key() && l.times == x.times_sampled && l.prio == x.priority) found = true;
              VCHECK(found, "a sample is reported before it is returned");
            }
        ops[i].answered = true;
      });
      t->EnqueSampleRequest(1, o.scb, absl::InfiniteDuration());
#else
      if (t->CanSample(1)) {
        std::vector<Table::SampledItem> out;
        VCHECK(t->SampleFlexibleBatch(&out, 2, absl::ZeroDuration()).ok(), "a sample succeeds");
        for (auto& x : out)
          for (auto& e : recs) {
            bool found = false;
            for (auto& l : e->log) if (l.kind == 's' && l.key == x.ref->item.key() && l.times == x.times_sampled && l.prio == x.priority) found = true;
            VCHECK(found, "a sample is reported before it is returned");
          }
      }
#endif
      break;
    case kUpdate: {
      // Two updates in one call, of one or of two items.
      KeyWithPriority k[2];
      k[0].set_key(o.key);
      k[0].set_priority(o.prio);
      k[1].set_key(1);
      k[1].set_priority(o.prio + 0.5);
      VCHECK(t->MutateItems({k[0], k[1]}, {}).ok(), "an update succeeds");
      break;
    }
    case kDelete: VCHECK(t->MutateItems({}, {o.key}).ok(), "a deletion succeeds"); break;
    case kReset: {
      std::vector<size_t> n;
      for (auto& r : recs) n.push_back(r->log.size());
      VCHECK(t->Reset().ok(), "a reset succeeds");
      for (size_t i = 0; i < recs.size(); i++) {
        bool found = false;
        for (size_t k = n[i]; k < recs[i]->log.size(); k++) if (recs[i]->log[k].kind == 'r') found = true;
        VCHECK(found, "a reset is reported before it returns");
      }
      break;
    }
    case kSwap: {
      // A table with few items, one deletion and one update in the same call.
      KeyWithPriority k;
      k.set_key(1);
      k.set_priority(o.prio);
      VCHECK(t->MutateItems({k}, {o.key}).ok(), "a mutation succeeds");
      break;
    }
  }
}
bool same(const State& a, const State& b) {
  if (a.it.size() != b.it.size() || a.ins != b.ins || a.sam != b.sam || a.del != b.del || a.updates != b.updates || a.resets != b.resets) return false;
  for (size_t i = 0; i < a.it.size(); i++)
    if (a.it[i].key != b.it[i].key || a.it[i].prio != b.it[i].prio || a.it[i].times != b.it[i].times) return false;
  return true;
}
void check_state() {
  State s0 = replay(*recs[0]);
  auto cp = t->Checkpoint().checkpoint;
  VCHECK(s0.ins == cp.rate_limiter().insert_count(), "every insert has been reported once");
  VCHECK(s0.sam == cp.rate_limiter().sample_count(), "every sample has been reported once");
  VCHECK(s0.del == cp.rate_limiter().delete_count(), "every deletion has been reported once");
  VCHECK((int)s0.it.size() == cp.items_size(), "the items reported are those in the table");
  for (auto& x : cp.items()) {
    bool found = false;
    for (auto& y : s0.it) if (y.key == x.key() && y.prio == x.priority() && y.times == x.times_sampled()) found = true;
    VCHECK(found, "the items reported are those in the table, with their state");
  }
}
void check_logs() {
  auto& a = recs[0]->log;
  for (auto& r : recs) {
    VCHECK(r->log.size() == a.size(), "all extensions are told the same");
    for (size_t i = 0; i < a.size(); i++)
      VCHECK(r->log[i].kind == a[i].kind && r->log[i].key == a[i].key && r->log[i].prio == a[i].prio && r->log[i].times == a[i].times, "all extensions are told the same, in the same order");
  }
}
}  // namespace
extern "C" void verif_main() {
  vs_cfg.idle_is_bug = true;
  max_times = choose(2, "max_times_sampled") ? -1 : TIMES;
  int spi_q = verif::range(4, 8, "spi");  // quarters
  std::vector<std::shared_ptr<TableExtension>> exts;
  int late = LATE ? flip("late extension") : 0;
  for (int i = 0; i < SYNC + ASYNC; i++) {
    recs.push_back(std::make_shared<Rec>(i >= SYNC));
    if (!(late && i == SYNC + ASYNC - 1)) exts.push_back(recs.back());
  }
  auto executor = std::make_shared<TaskExecutor>(1, "callbacks");
  t = std::make_shared<Table>("t", make_selector(kFifo), make_selector(kFifo), SIZE, max_times,
                              std::make_shared<RateLimiter>(spi_q * 0.25, 1, -1.0, 1000.0), exts);
  VCHECK(!recs[0]->RegisterTable(nullptr, t.get()).ok(), "an extension is registered with one table");
#if WORKER
  t->EnableTableWorker(executor);
#endif
  if (late) t->UnsafeAddExtension(recs.back());
  int kinds[6], nk = 0;
  for (int k = 0; k < 6; k++) if (OPSET >> k & 1) kinds[nk++] = k;
  int n = THREADS * PER;
  for (int i = 0; i < PREFILL + n; i++) {
    Op o;
    o.kind = i < PREFILL ? (int)kInsert : kinds[choose(nk, "op")];
    o.key = o.kind != kSample && o.kind != kReset ? 1 + (i < PREFILL ? i : choose(PREFILL + 1, "key")) : 0;
    o.prio = 1.0 + i;
    ops.push_back(o);
  }
  for (int i = 0; i < PREFILL; i++) run(i);
  vs_run_others();
  vs_cfg.preempt = PREEMPT;
  vs_cfg.delays = DELAYS;
  std::vector<std::thread> th;
  for (int i = 0; i < THREADS; i++)
    th.emplace_back([i] { for (int k = 0; k < PER; k++) run(PREFILL + i * PER + k); });
  bool drop = WORKER && flip("destroyed at once");
  if (!drop) {
    vs_run_others();
    for (auto& x : th) x.join();
    check_state();
    check_logs();
    verif_reach("checked");
  } else {
    for (auto& x : th) x.join();
  }
  t.reset();
  check_logs();
  replay(*recs[0]);
  for (auto& r : recs) {
    VCHECK(r->table_ == nullptr, "extensions are released by the table");
  }
  executor->Close();
}
