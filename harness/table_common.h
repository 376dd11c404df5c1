// A table driven next to a reference model: the items, their order for every
// selector, the rate limiter counters and the extension notifications.
#ifndef VERIF_HARNESS_TABLE_COMMON_H_
#define VERIF_HARNESS_TABLE_COMMON_H_
#include "common.h"
#include <algorithm>
#include <map>
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/table.h"
#include "reverb/cc/table_extensions/interface.h"
namespace deepmind {
namespace reverb {
namespace tm {
enum Kind { kFifo, kLifo, kMinHeap, kMaxHeap, kUniform, kPrio };

inline std::shared_ptr<ItemSelector> make_selector(int kind) {
  switch (kind) {
    case kFifo: return std::make_shared<FifoSelector>();
    case kLifo: return std::make_shared<LifoSelector>();
    case kMinHeap: return std::make_shared<HeapSelector>(true);
    case kMaxHeap: return std::make_shared<HeapSelector>(false);
    case kUniform: return std::make_shared<UniformSelector>();
    default: return std::make_shared<PrioritizedSelector>(1.0);
  }
}

// Delegates to a real selector and remembers what it was told.
struct Spy : ItemSelector {
  std::shared_ptr<ItemSelector> in;
  struct Keys : std::vector<std::pair<Key, double>> {
    iterator find(Key k) { auto i = begin(); while (i != end() && i->first != k) ++i; return i; }
    bool count(Key k) { return find(k) != end(); }
    void erase(Key k) { std::vector<std::pair<Key, double>>::erase(find(k)); }
    double& operator[](Key k) { auto i = find(k); if (i == end()) { push_back({k, 0}); i = end() - 1; } return i->second; }
  } keys;
  int samples = 0;
  explicit Spy(int kind) : in(make_selector(kind)) {}
  absl::Status Delete(Key k) override { auto s = in->Delete(k); if (s.ok()) keys.erase(k); return s; }
  absl::Status Insert(Key k, double p) override { auto s = in->Insert(k, p); if (s.ok()) keys[k] = p; return s; }
  absl::Status Update(Key k, double p) override { auto s = in->Update(k, p); if (s.ok()) keys[k] = p; return s; }
  KeyWithProbability Sample() override { samples++; return in->Sample(); }
  void Clear() override { keys.clear(); in->Clear(); }
  KeyDistributionOptions options() const override { return in->options(); }
  std::string DebugString() const override { return "Spy"; }
};

struct Event { char kind; uint64_t key; double prio; int times; };
struct Ext : TableExtension {
  std::vector<Event> log;
  bool async = false;
  int registered = 0;
  bool CanRunAsync() const override { return async; }
  std::string DebugString() const override { return "Ext"; }
  void add(char k, const ExtensionItem& i);
  void OnInsert(absl::Mutex* mu, const ExtensionItem& i) override { mu->AssertHeld(); add('i', i); }
  void OnDelete(absl::Mutex* mu, const ExtensionItem& i) override { mu->AssertHeld(); add('d', i); }
  void OnUpdate(absl::Mutex* mu, const ExtensionItem& i) override { mu->AssertHeld(); add('u', i); }
  void OnSample(absl::Mutex* mu, const ExtensionItem& i) override { mu->AssertHeld(); add('s', i); }
  void OnReset(absl::Mutex* mu) override { mu->AssertHeld(); log.push_back({'r', 0, 0, 0}); }
  absl::Status RegisterTable(absl::Mutex*, Table*) override { registered++; return absl::OkStatus(); }
  void UnregisterTable(absl::Mutex*, Table*) override { registered--; }
};
inline void Ext::add(char k, const ExtensionItem& i) { log.push_back({k, i.ref->item.key(), i.priority, i.times_sampled}); }

struct MItem { uint64_t key; double prio; int times, ins, upd, ep; };

// Numbers that are exact in quarters.
struct Limits { int spi4 = 4, min4 = -1000000, max4 = 1000000, min_size = 1; };

struct Harness {
  int skind, rkind;
  int64_t max_size;
  int max_times;
  Limits lim;
  absl::optional<tensorflow::StructuredValue> signature;
  std::shared_ptr<Spy> sampler, remover;
  std::shared_ptr<RateLimiter> limiter;
  std::shared_ptr<Ext> ext;
  std::shared_ptr<Table> t;
  bool restored = false;  // the table came from a checkpoint
  // The reference.
  std::vector<MItem> m;
  std::vector<Event> log;
  int clock = 0;
  std::vector<uint64_t> keys;  // every key ever named
  int64_t ins = 0, sam = 0, del = 0, deleted_eps = 0, unique = 0;
  // Chunks: key = 10 + 2*episode + part, episodes 1..3.
  std::map<uint64_t, std::shared_ptr<ChunkStore::Chunk>> chunks;

  std::shared_ptr<ChunkStore::Chunk> chunk(int ep, int part) {
    uint64_t k = 10 + 2 * ep + part;
    auto& c = chunks[k];
    if (!c) {
      ChunkData d;
      d.set_chunk_key(k);
      d.mutable_sequence_range()->set_episode_id(ep);
      d.mutable_sequence_range()->set_start(part);
      d.mutable_sequence_range()->set_end(part);
      d.set_delta_encoded(part == 1);
      auto* tp = d.mutable_data()->add_tensors();
      tp->set_tensor_content(absl::StrCat("data", k));
      c = std::make_shared<ChunkStore::Chunk>(std::move(d));
    }
    return c;
  }
  // Episode sets: 0: {1}, 1: {1, 2}, 2: {1 twice}, 3: {2}, 4: {3}.
  static std::vector<int> episodes(int ep) {
    switch (ep) {
      case 0: return {1};
      case 1: return {1, 2};
      case 2: return {1, 1};
      case 3: return {2};
      default: return {3};
    }
  }
  Table::Item item(uint64_t key, double prio, int ep) {
    Table::Item it;
    it.item.set_key(key);
    it.item.set_table("t");
    it.item.set_priority(prio);
    auto* col = it.item.mutable_flat_trajectory()->add_columns();
    auto eps = episodes(ep);
    for (size_t i = 0; i < eps.size(); i++) {
      auto c = chunk(eps[i], (int)i);
      auto* sl = col->add_chunk_slices();
      sl->set_chunk_key(c->key());
      sl->set_length(1);
      it.chunks.push_back(c);
    }
    return it;
  }
  std::shared_ptr<RateLimiter> make_limiter() {
    return std::make_shared<RateLimiter>(lim.spi4 * 0.25, lim.min_size, lim.min4 * 0.25, lim.max4 * 0.25);
  }
  void init() {
    v_rng.mode = 2;
    sampler = std::make_shared<Spy>(skind);
    remover = std::make_shared<Spy>(rkind);
    limiter = make_limiter();
    ext = std::make_shared<Ext>();
    t = std::make_shared<Table>("t", sampler, remover, max_size, max_times, limiter,
                                std::vector<std::shared_ptr<TableExtension>>{ext}, signature);
    VCHECK(ext->registered == 1, "the extension is registered once");
  }

  int find(uint64_t k) const { for (size_t i = 0; i < m.size(); i++) if (m[i].key == k) return (int)i; return -1; }
  bool can_insert(int64_t n) const {
    if (ins + n - del <= lim.min_size) return true;
    return (ins + n) * lim.spi4 - 4 * sam <= lim.max4;
  }
  bool can_sample(int64_t n) const {
    if (ins - del < lim.min_size) return false;
    return ins * lim.spi4 - 4 * sam - 4 * n >= lim.min4;
  }
  // The item a deterministic selector ranks first (null for random ones).
  const MItem* first(int kind) const {
    const MItem* b = nullptr;
    for (auto& x : m) {
      bool better = !b;
      if (b) switch (kind) {
        case kFifo: better = x.ins < b->ins; break;
        case kLifo: better = x.ins > b->ins; break;
        case kMinHeap: better = x.prio < b->prio || (x.prio == b->prio && x.upd < b->upd); break;
        case kMaxHeap: better = x.prio > b->prio || (x.prio == b->prio && x.upd < b->upd); break;
        default: return nullptr;
      }
      if (better) b = &x;
    }
    return b;
  }
  double prob(const MItem& x, int kind) const {
    if (kind <= kMaxHeap) return 1.0;
    if (kind == kUniform) return 1.0 / (double)m.size();
    double tot = 0;
    for (auto& y : m) tot += y.prio;
    return tot == 0 ? 1.0 / (double)m.size() : x.prio / tot;
  }
  std::map<int, int> refs() const {
    std::map<int, int> r;
    for (auto& x : m) for (int e : episodes(x.ep)) r[e]++;
    return r;
  }
  void m_delete(uint64_t key) {
    int i = find(key);
    if (i < 0) return;
    auto before = refs();
    log.push_back({'d', key, m[i].prio, m[i].times});
    m.erase(m.begin() + i);
    auto after = refs();
    for (auto& e : before) if (!after.count(e.first)) deleted_eps++;
    del++;
  }
  void m_update(uint64_t key, double p) {
    int i = find(key);
    if (i < 0) return;
    m[i].prio = p;
    m[i].upd = clock++;
    log.push_back({'u', key, p, m[i].times});
  }
  // After the implementation inserted `key` (new): mirrors the insert and, on
  // overflow, the eviction.
  void m_insert(uint64_t key, double p, int ep) {
    MItem x{key, p, 0, clock, clock, ep};
    clock++;
    m.push_back(x);
    log.push_back({'i', key, p, 0});
    if ((int64_t)m.size() > max_size) {
      const MItem* v = first(rkind);
      // A random remover may evict any item: take the one that is gone.
      if (!v) for (auto& y : m) { Table::Item it; if (!t->Get(y.key, &it)) { v = &y; break; } }
      VCHECK(v != nullptr, "an insert into a full table evicts an item");
      m_delete(v->key);
    }
    ins++;
  }
  void insert(uint64_t key, double p, int ep) {
    absl::Status s = t->InsertOrAssign(item(key, p, ep), absl::ZeroDuration());
    if (find(key) >= 0) {
      VCHECK(s.ok(), "inserting an existing key succeeds as an update");
      m_update(key, p);
    } else if (!can_insert(1)) {
      VCHECK(absl::IsDeadlineExceeded(s), "an insert that is not admitted in time reports a deadline");
    } else {
      VCHECK(s.ok(), "an admitted insert succeeds");
      m_insert(key, p, ep);
    }
    vs_advance(1);
  }
  void mutate(std::vector<std::pair<uint64_t, double>> upd, std::vector<uint64_t> dels) {
    std::vector<KeyWithPriority> u;
    for (auto& x : upd) { KeyWithPriority k; k.set_key(x.first); k.set_priority(x.second); u.push_back(k); }
    VCHECK(t->MutateItems(u, dels).ok(), "mutating items succeeds");
    for (auto k : dels) m_delete(k);
    for (auto& x : upd) m_update(x.first, x.second);
  }
  void sample(int batch) {
    std::vector<Table::SampledItem> out;
    bool blocked = !can_sample(1);
    absl::Status s = t->SampleFlexibleBatch(&out, batch, absl::ZeroDuration());
    if (blocked) {
      VCHECK(absl::IsDeadlineExceeded(s) && out.empty(), "a sample that is not admitted in time reports a deadline");
      return;
    }
    VCHECK(s.ok(), "an admitted sample succeeds");
    VCHECK(!out.empty() && (int)out.size() <= batch, "a batch holds between one and the requested number of samples");
    for (auto& x : out) {
      VCHECK(can_sample(1), "every sample of a batch is admitted by the rate limiter");
      sam++;
      uint64_t key = x.ref->item.key();
      int i = find(key);
      VCHECK(i >= 0, "a sampled item is in the table");
      auto* f = first(skind);
      if (f) VCHECK(key == f->key, "the sampled item is the one its selector ranks first");
      VCHECK(x.probability == prob(m[i], skind), "a sample carries the probability it was drawn with");
      VCHECK(x.table_size == (int64_t)m.size(), "a sample carries the table size at the time of sampling");
      VCHECK(x.priority == m[i].prio, "a sample carries the priority of its item");
      if (m[i].times == 0) unique++;
      m[i].times++;
      VCHECK(x.times_sampled == m[i].times, "a sample carries the number of times its item was sampled");
      VCHECK(!x.rate_limited, "a sample that was admitted at once is not marked as rate limited");
      auto eps = episodes(m[i].ep);
      VCHECK(x.ref->chunks.size() == eps.size(), "a sample holds all chunks of its item");
      for (size_t k = 0; k < eps.size(); k++) VCHECK(x.ref->chunks[k]->key() == chunk(eps[k], (int)k)->key(), "a sample holds the chunks of its item in order");
      log.push_back({'s', key, m[i].prio, m[i].times});
      if (max_times > 0 && m[i].times == max_times) m_delete(key);
    }
    VCHECK((int)out.size() == batch || !can_sample(1), "a batch stops early only when the rate limiter says so");
  }
  // The table has been replaced by one restored from its checkpoint.
  void was_restored(std::shared_ptr<Table> nt) {
    t = nt;
    restored = true;
    std::sort(m.begin(), m.end(), [](const MItem& a, const MItem& b) { return a.ins < b.ins; });
    for (auto& x : m) { x.upd = x.ins; log.push_back({'i', x.key, x.prio, x.times}); }
  }
  void reset() {
    VCHECK(t->Reset().ok(), "reset succeeds");
    log.push_back({'r', 0, 0, 0});
    m.clear();
    ins = sam = del = deleted_eps = unique = 0;
  }
  void check_item(const Table::Item& it, const MItem& x) {
    VCHECK(it.item.priority() == x.prio, "an item has the priority it was last given");
    VCHECK(it.item.times_sampled() == x.times, "an item counts how often it was sampled");
    auto eps = episodes(x.ep);
    VCHECK(it.chunks.size() == eps.size() && it.item.flat_trajectory().columns(0).chunk_slices_size() == (int)eps.size(), "an item keeps its trajectory and chunks");
    for (size_t k = 0; k < eps.size(); k++) {
      auto want = chunk(eps[k], (int)k);
      if (!restored) VCHECK(it.chunks[k] == want, "an item keeps its chunks");
      VCHECK(it.chunks[k]->key() == want->key() && it.chunks[k]->data().SerializeAsString() == want->data().SerializeAsString(), "an item keeps its chunks");
      VCHECK(it.item.flat_trajectory().columns(0).chunk_slices((int)k).chunk_key() == it.chunks[k]->key(), "an item keeps its trajectory");
    }
  }
  void check_selector(Spy* s, int kind, const char* msg) {
    VCHECK(s->keys.size() == m.size(), msg);
    for (auto& x : m) { auto it = s->keys.find(x.key); VCHECK(it != s->keys.end() && it->second == x.prio, msg); }
    auto* f = first(kind);
    if (f) VCHECK(s->in->Sample().key == f->key, msg);
  }
  void check() {
    VCHECK((int64_t)m.size() <= max_size, "reference: within capacity");
    VCHECK(t->size() == (int64_t)m.size(), "the size of the table follows from its history");
    auto copy = t->Copy();
    VCHECK(copy.size() == m.size(), "the table lists exactly its items");
    for (auto& it : copy) {
      int i = find(it.item.key());
      VCHECK(i >= 0, "the table lists only items it should hold");
      check_item(it, m[i]);
    }
    for (uint64_t k : keys) {
      Table::Item it;
      bool got = t->Get(k, &it);
      int i = find(k);
      VCHECK(got == (i >= 0), "a key is found exactly when its item is present");
      if (got) { VCHECK(it.item.key() == k, "the item found has the key asked for"); check_item(it, m[i]); }
    }
    if (!restored) check_selector(sampler.get(), skind, "the sampler holds exactly the items of the table with their priorities, in its order");
    if (!restored) check_selector(remover.get(), rkind, "the remover holds exactly the items of the table with their priorities, in its order");
    TableInfo info = t->info();
    VCHECK(info.current_size() == (int64_t)m.size(), "the info reports the size");
    VCHECK(info.num_episodes() == (int64_t)refs().size() && t->num_episodes() == info.num_episodes(), "the number of episodes is the number of distinct episodes of the items");
    VCHECK(info.num_deleted_episodes() == deleted_eps && t->num_deleted_episodes() == deleted_eps, "the deleted episodes are those whose last item was removed");
    VCHECK(info.num_unique_samples() == unique, "the number of distinct sampled items follows from the history");
    VCHECK(info.max_size() == max_size && info.max_times_sampled() == max_times && info.name() == "t", "the info reports the configuration");
    {
      auto cp = t->Checkpoint().checkpoint.rate_limiter();
      VCHECK(cp.insert_count() == ins && cp.sample_count() == sam && cp.delete_count() == del, "the rate limiter counts exactly the inserts, samples and deletions that happened");
    }
    for (int n = 1; n <= 2; n++) {
      VCHECK(t->CanInsert(n) == can_insert(n), "inserts are admitted by the limits");
      VCHECK(t->CanSample(n) == can_sample(n), "samples are admitted by the limits");
    }
    VCHECK(ext->log.size() == log.size(), "the extension was told of every change exactly once");
    for (size_t i = 0; i < log.size(); i++) {
      VCHECK(ext->log[i].kind == log[i].kind && ext->log[i].key == log[i].key, "the extension was told of the changes in order");
      if (log[i].kind != 'r') VCHECK(ext->log[i].prio == log[i].prio && ext->log[i].times == log[i].times, "the extension saw the state of the item at that time");
    }
  }
};
}  // namespace tm
}  // namespace reverb
}  // namespace deepmind
#endif
