// C17: a table goes through a checkpoint on the modelled file system and is
// then used further, next to the reference model.
#include "table_common.h"
#include "reverb/cc/platform/tfrecord_checkpointer.h"
using namespace deepmind::reverb;
using namespace tm;
#ifndef NEP
#define NEP 2
#endif
namespace {
Harness h, h2;
uint64_t key() {
  uint64_t k = verif::u64("key");
  h.keys.push_back(k);
  return k;
}
#ifdef NPRIO
double prio() { return 1.0 + choose(NPRIO, "prio"); }
#else
double prio() { return (double)(int8_t)verif_sym(8, "prio") * 0.5; }
#endif
void step(int opset) {
  int ops[8], n = 0;
  for (int o = 0; o < 5; o++) if ((opset >> o) & 1) ops[n++] = o;
  switch (ops[choose(n, "op")]) {
    case 0: h.insert(key(), prio(), choose(NEP, "episodes")); break;
    case 1: h.sample(1 + choose(2, "batch")); break;
    case 2: h.mutate({{key(), prio()}}, {}); break;
    case 3: h.mutate({}, {key()}); break;
    case 4: h.reset(); break;
  }
}
}  // namespace
extern "C" void verif_main() {
  h.skind = SK;
  h.rkind = RK;
  h.max_size = SIZE;
  h.max_times = TIMES;
  if (LIM == 1) { h.lim.min4 = -8; h.lim.max4 = 8; }
  if (LIM == 2) { h.lim.spi4 = 6; h.lim.min_size = 2; h.lim.min4 = -6; h.lim.max4 = 15; }
  absl::v_hash_reversed = flip("map order");
  if (flip("signature")) {
    h.signature = tensorflow::StructuredValue();
    h.signature->mutable_tensor_spec_value()->set_name("sig");
  }
  h.init();
  // A second table, to see that tables are not mixed up.
  h2.skind = kLifo;
  h2.rkind = kFifo;
  h2.max_size = 1;
  h2.max_times = 0;
  h2.init();
  Harness* other = &h2;
  auto t2 = std::make_shared<Table>("other", make_selector(kLifo), make_selector(kFifo), 5, 3, h.make_limiter());
  VCHECK(t2->InsertOrAssign(h.item(77, 4.0, 1), absl::ZeroDuration()).ok(), "the other table takes an item");
  int n = choose(PREFILL + 1, "prefill");
  for (int i = 0; i < n; i++) h.insert(key(), prio(), choose(NEP, "episodes"));
  for (int i = 0; i < OPS; i++) step(0x1f);
  h.check();
  std::vector<std::shared_ptr<Table>> tables;
  // The tables the server was started with: same names, other settings.
  auto next = std::make_shared<Ext>();
  {
    TFRecordCheckpointer c("/root", "");
    std::string path;
    bool first = flip("order");
    std::vector<Table*> save = first ? std::vector<Table*>{h.t.get(), t2.get()} : std::vector<Table*>{t2.get(), h.t.get()};
    VCHECK(c.Save(save, 1, &path).ok(), "saving succeeds");
    auto a = std::make_shared<Table>("t", make_selector(kUniform), make_selector(kUniform), 100, 9, std::make_shared<RateLimiter>(1.0, 1, -5.0, 5.0), std::vector<std::shared_ptr<TableExtension>>{next});
    auto b = std::make_shared<Table>("other", make_selector(kUniform), make_selector(kUniform), 100, 9, std::make_shared<RateLimiter>(1.0, 1, -5.0, 5.0));
    tables = {b, a};
  }
  auto store = std::make_shared<ChunkStore>();
  TableInfo before = h.t->info();
  auto cp_before = h.t->Checkpoint().checkpoint;
  {
    TFRecordCheckpointer c("/root", "");
    VCHECK(c.LoadLatest(store.get(), &tables).ok(), "loading succeeds");
  }
  VCHECK(tables.size() == 2 && tables[0]->name() == "other" && tables[1]->name() == "t", "tables keep their places");
  VCHECK(tables[0]->size() == 1 && tables[0]->info().max_size() == 5 && tables[0]->info().max_times_sampled() == 3, "the other table is restored");
  Table::Item it;
  VCHECK(tables[0]->Get(77, &it) && it.item.priority() == 4.0 && it.chunks.size() == 2, "the item of the other table is restored");
  h.t.reset();
  auto old = h.ext;
  h.ext = next;
  h.log.clear();
  h.was_restored(tables[1]);
  TableInfo after = h.t->info();
  VCHECK(after.sampler_options().SerializeAsString() == before.sampler_options().SerializeAsString() &&
         after.remover_options().SerializeAsString() == before.remover_options().SerializeAsString(), "the selectors are restored with their options");
  VCHECK(after.has_signature() == before.has_signature() && after.signature().SerializeAsString() == before.signature().SerializeAsString(), "the signature is restored");
  VCHECK(after.rate_limiter_info().samples_per_insert() == before.rate_limiter_info().samples_per_insert() &&
         after.rate_limiter_info().min_diff() == before.rate_limiter_info().min_diff() && after.rate_limiter_info().max_diff() == before.rate_limiter_info().max_diff() &&
         after.rate_limiter_info().min_size_to_sample() == before.rate_limiter_info().min_size_to_sample(), "the rate limiter configuration is restored");
  auto cp_after = h.t->Checkpoint().checkpoint;
  VCHECK(cp_after.items_size() == cp_before.items_size(), "a second checkpoint has the same items");
  for (int i = 0; i < cp_after.items_size(); i++)
    VCHECK(cp_after.items(i).SerializeAsString() == cp_before.items(i).SerializeAsString(), "a second checkpoint has the same items in the same order");
  h.check();
  if (h.m.size() > 1) verif_reach("several items restored");
  if (h.unique > 0) verif_reach("sampled items restored");
  for (int i = 0; i < OPS2; i++) { step(0x0b); h.check(); }
  // Chunks come back as long as the tables hold them.
  for (auto& x : h.m) {
    std::vector<std::shared_ptr<ChunkStore::Chunk>> cs;
    for (int e : Harness::episodes(x.ep)) { std::vector<ChunkStore::Key> ks{h.chunk(e, 0)->key()}; }
  }
  h.t.reset();
  tables.clear();
  (void)other;
}
