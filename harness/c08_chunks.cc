// C08: callers that insert, look up and release chunks, next to the cleaner.
#include <thread>
#include "common.h"
#include "reverb/cc/chunk_store.h"
using namespace deepmind::reverb;
namespace {
constexpr int kKeys = KEYS;
uint64_t key[kKeys];
ChunkStore* store;
typedef std::shared_ptr<ChunkStore::Chunk> Ref;
// What the callers hold of each key.
struct K {
  ChunkStore::Chunk* chunk = nullptr;  // the chunk they hold
  int held = 0;                        // references they hold
  int drops = 0;                       // times the last one was given up
  int inserts = 0;                     // inserts under way
  int insert_count = 0;                // inserts begun so far
  int getting = 0;                     // lookups under way
};
K ks[kKeys];
std::vector<std::pair<int, Ref>> refs[4];
uint64_t sent[kKeys][12];
int nsent[kKeys];

bool was_sent(int k, const Ref& r) {
  bool any = false;
  for (int i = 0; i < nsent[k]; i++) any |= r->data().sequence_range().episode_id() == sent[k][i];
  return any;
}
void hold(int t, int k, Ref r) {
  if (ks[k].held) VCHECK(r.get() == ks[k].chunk, "all references to a held key are to the same chunk");
  ks[k].chunk = r.get();
  ks[k].held++;
  refs[t].push_back({k, std::move(r)});
}
void insert(int t) {
  int k = choose(kKeys, "key");
  uint64_t payload = verif::u64("payload");
  sent[k][nsent[k]++] = payload;
  ChunkData d;
  d.set_chunk_key(key[k]);
  d.mutable_sequence_range()->set_episode_id(payload);
  ChunkStore::Chunk* before = ks[k].held ? ks[k].chunk : nullptr;
  int drops = ks[k].drops;
  ks[k].inserts++;
  ks[k].insert_count++;
  bool alone = ks[k].inserts == 1 && ks[k].getting == 0 && !before;
  int count = ks[k].insert_count;
  Ref r = store->Insert(std::move(d));
  VCHECK(r != nullptr && r->key() == key[k], "insert returns a chunk of that key");
  VCHECK(was_sent(k, r), "a chunk holds what was inserted");
  if (before && ks[k].drops == drops) VCHECK(r.get() == before, "inserting a held key does not replace its chunk");
  if (alone && ks[k].insert_count == count && ks[k].held == 0)
    VCHECK(r->data().sequence_range().episode_id() == payload, "inserting a key nobody holds stores the new chunk"), verif_reach("inserted anew");
  hold(t, k, r);
  ks[k].inserts--;
}
void get(int t) {
  int n = 1 + choose(2, "keys");
  int which[2];
  std::vector<ChunkStore::Key> want;
  ChunkStore::Chunk* before[2];
  int drops[2], count[2];
  bool absent[2];
  for (int i = 0; i < n; i++) {
    int k = which[i] = choose(kKeys, "key");
    want.push_back(key[k]);
    before[i] = ks[k].held ? ks[k].chunk : nullptr;
    drops[i] = ks[k].drops;
    count[i] = ks[k].insert_count;
    absent[i] = !ks[k].held && !ks[k].inserts && !ks[k].getting;
  }
  for (int i = 0; i < n; i++) ks[which[i]].getting++;
  std::vector<Ref> out;
  tensorflow::Status s = store->Get(want, &out);
  bool must = true, cannot = false;
  for (int i = 0; i < n; i++) {
    must &= before[i] && ks[which[i]].drops == drops[i];
    cannot |= absent[i] && ks[which[i]].insert_count == count[i];
  }
  if (must) VCHECK(s.ok(), "chunks that are held are found"), verif_reach("found");
  if (cannot) VCHECK(!s.ok(), "a lookup fails if a chunk is held by nobody"), verif_reach("missing");
  if (s.ok()) {
    VCHECK((int)out.size() == n, "a lookup returns one chunk per key");
    for (int i = 0; i < n; i++) {
      VCHECK(out[i] != nullptr && out[i]->key() == key[which[i]], "chunks come in the order of the keys");
      VCHECK(was_sent(which[i], out[i]), "a chunk holds what was inserted");
      if (before[i] && ks[which[i]].drops == drops[i]) VCHECK(out[i].get() == before[i], "a lookup returns the chunk that is held");
    }
    if (flip("keep")) hold(t, which[0], out[0]);
  } else {
    VCHECK(tensorflow::errors::IsNotFound(s), "a failed lookup reports that the chunk is not found");
  }
  out.clear();
  for (int i = 0; i < n; i++) ks[which[i]].getting--;
}
void release(int t) {
  if (refs[t].empty()) return;
  int i = choose((int)refs[t].size(), "which");
  int k = refs[t][i].first;
  Ref r = std::move(refs[t][i].second);
  refs[t].erase(refs[t].begin() + i);
  if (--ks[k].held == 0) ks[k].drops++;
  ks[k].getting++;
  r.reset();
  ks[k].getting--;
}
void run(int t, int n) {
  for (int i = 0; i < n; i++) {
    int op = choose(3, "op");
    if (op == 0) insert(t);
    else if (op == 1) get(t);
    else release(t);
  }
}
}  // namespace
extern "C" void verif_main() {
  for (int i = 0; i < kKeys; i++) {
    key[i] = verif::u64("key");
    for (int j = 0; j < i; j++) verif_assume(key[i] != key[j]);
  }
  vs_cfg.free_switch = true;
  {
    ChunkStore s(1 + choose(2, "cleanup batch"));
    store = &s;
    vs_cfg.preempt = PREEMPT;
    for (int i = 0; i < INIT; i++) insert(0);
    std::vector<std::thread> th;
    for (int t = 1; t < CALLERS; t++) th.emplace_back([t] { run(t, PER); });
    run(0, PER);
    for (auto& t : th) t.join();
    vs_cfg.preempt = 0;
    if (flip("let the cleaner run")) vs_run_others();
    for (int k = 0; k < kKeys; k++) {
      std::vector<ChunkStore::Key> want = {key[k]};
      std::vector<Ref> out;
      bool ok = store->Get(want, &out).ok();
      VCHECK(ok == (ks[k].held > 0), "a chunk is found exactly while it is held");
      if (ok) VCHECK(out[0].get() == ks[k].chunk, "a lookup returns the chunk that is held");
    }
  }
  // References outlive the store.
  for (auto& r : refs)
    for (auto& p : r) VCHECK(p.second->key() == key[p.first] && was_sent(p.first, p.second), "a held chunk is intact");
}
