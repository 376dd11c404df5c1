// C24: the calls of the service other than its insert and sample streams,
// against what a client can see of the tables before and after.
#include "grpc_driver.h"
#include "table_common.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include <unistd.h>
#if ASYNC
extern size_t FLAGS_reverb_callback_executor_num_threads;
#endif
using namespace deepmind::reverb;
using namespace tm;
namespace {
#if ASYNC
using Service = ReverbServiceAsyncImpl;
using Stream = AsyncCall<InitializeConnectionRequest, InitializeConnectionResponse>;
template <class Req, class Resp>
grpc::Status call(Service* s, grpc::ServerUnaryReactor* (Service::*m)(grpc::CallbackServerContext*, const Req*, Resp*), const Req& q, Resp* r) {
  grpc::CallbackServerContext ctx;
  grpc::ServerUnaryReactor* x = (s->*m)(&ctx, &q, r);
  VCHECK(x == ctx.DefaultReactor() && x->v_finishes == 1, "a call is finished once");
  return x->v_status;
}
#else
using Service = ReverbServiceImpl;
using Stream = SyncCall<InitializeConnectionRequest, InitializeConnectionResponse>;
template <class Req, class Resp>
grpc::Status call(Service* s, grpc::Status (Service::*m)(grpc::ServerContext*, const Req*, Resp*), const Req& q, Resp* r) {
  grpc::ServerContext ctx;
  return (s->*m)(&ctx, &q, r);
}
#endif
bool is(const grpc::Status& s, grpc::StatusCode c) { return s.error_code() == c; }

struct Mocked : Checkpointer {
  absl::Status save, latest, fallback;
  std::string path = "/dir/checkpoint";
  std::vector<std::vector<Table*>> saved;
  int keep = -1, n_latest = 0, n_fallback = 0;
  std::vector<std::shared_ptr<Table>> replacement;  // what a successful load returns
  ChunkStore* store = nullptr;
  bool loads = true;
  absl::Status Save(std::vector<Table*> t, int keep_latest, std::string* p) override {
    saved.push_back(t);
    keep = keep_latest;
    if (save.ok()) *p = path;
    return save;
  }
  absl::Status Load(absl::string_view, ChunkStore*, std::vector<std::shared_ptr<Table>>*) override { VCHECK(false, "not called"); return absl::OkStatus(); }
  absl::Status LoadLatest(ChunkStore* s, std::vector<std::shared_ptr<Table>>* t) override {
    VCHECK(n_fallback == 0, "the latest checkpoint has precedence");
    n_latest++;
    store = s;
    if (latest.ok()) *t = replacement;
    return latest;
  }
  absl::Status LoadFallbackCheckpoint(ChunkStore* s, std::vector<std::shared_ptr<Table>>* t) override {
    VCHECK(n_latest == 1, "the fallback is tried second");
    VCHECK(s == store, "with the same chunk store");
    n_fallback++;
    if (fallback.ok()) *t = replacement;
    return fallback;
  }
  std::string DebugString() const override { return "Mocked"; }
};

const char* kNames[] = {"a", "b", "u"};
std::shared_ptr<Table> make(const std::string& name, int64_t max_size) {
  int kind = max_size % 2 ? kFifo : kPrio;
  return std::make_shared<Table>(name, make_selector(kind), make_selector(kind == kFifo ? kPrio : kFifo), max_size, 7,
                                 std::make_shared<RateLimiter>(1.0, 1, -1e9, 1e9));
}
struct M { uint64_t key; double prio; };
// Keys are arbitrary 64 bit numbers; comparisons decide which are equal.
struct State : std::vector<M> {
  M* find(uint64_t k) { for (auto& m : *this) if (m.key == k) return &m; return nullptr; }
  void erase(uint64_t k) { if (M* m = find(k)) std::vector<M>::erase(begin() + (m - data())); }
};
struct T { std::shared_ptr<Table> t; State m; } tb[2];
std::unique_ptr<Service> service;

void insert(int i, uint64_t key, double prio) {
  Table::Item it;
  it.item.set_key(key);
  it.item.set_table(kNames[i]);
  it.item.set_priority(prio);
  ChunkData d;
  d.set_chunk_key(key);
  d.mutable_sequence_range()->set_episode_id(key);
  auto* sl = it.item.mutable_flat_trajectory()->add_columns()->add_chunk_slices();
  sl->set_chunk_key(key);
  sl->set_length(1);
  it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(std::move(d)));
#if ASYNC
  bool more;
  VCHECK(tb[i].t->InsertOrAssignAsync(std::move(it), &more, std::weak_ptr<std::function<void(const absl::Status&)>>()).ok(), "an item is inserted");
  vs_run_others();
#else
  VCHECK(tb[i].t->InsertOrAssign(std::move(it)).ok(), "an item is inserted");
#endif
  tb[i].m.push_back({key, prio});
}
void check_tables() {
  for (int i = 0; i < 2; i++) {
    auto items = tb[i].t->Copy();
    VCHECK(items.size() == tb[i].m.size(), "exactly the items that remain");
    for (auto& it : items) {
      M* m = tb[i].m.find(it.item.key());
      VCHECK(m, "an item that was removed is gone");
      VCHECK(it.item.priority() == m->prio, "with the priority it was given");
    }
  }
}

#if MODE == 0
void run() {
  v_rng.mode = 2;
  Mocked* ck = nullptr;
  std::shared_ptr<Checkpointer> c;
  if (flip("checkpointer")) { c.reset(ck = new Mocked); ck->latest = ck->fallback = absl::NotFoundError("none"); }
  for (int i = 0; i < 2; i++) tb[i].t = make(kNames[i], 10 + i);
  std::vector<std::shared_ptr<Table>> tables = {tb[0].t, tb[1].t};
  VCHECK(Service::Create(tables, c, &service).ok(), "the service starts");
  vs_run_others();
  for (int i = 0; i < 2; i++) {
    int n = choose(ITEMS + 1, "items");
    for (int k = 0; k < n; k++) {
      uint64_t key = verif::u64("key");
      if (tb[i].m.find(key)) return;
      insert(i, key, (double)(uint8_t)verif_sym(8, "priority"));
    }
  }
  ServerInfoResponse first;
  bool have_first = false;
  for (int o = 0; o < NOPS; o++) {
    int op = choose(4, "call");
    if (op == 0) {
      ResetRequest q; ResetResponse r;
      int i = choose(3, "table");
      q.set_table(kNames[i]);
      auto s = call(service.get(), &Service::Reset, q, &r);
      if (i == 2) { VCHECK(is(s, grpc::StatusCode::NOT_FOUND), "an unknown table is an error"); verif_reach("unknown"); }
      else { VCHECK(s.ok(), "a table is reset"); tb[i].m.clear(); verif_reach("reset"); }
    } else if (op == 1) {
      MutatePrioritiesRequest q; MutatePrioritiesResponse r;
      int i = choose(3, "table");
      q.set_table(kNames[i]);
      int nu = choose(UPDATES + 1, "updates"), nd = choose(DELETES + 1, "deletes");
      State want = i < 2 ? tb[i].m : State();
      bool refused = false;
      for (int k = 0; k < nd; k++) {
        uint64_t key = verif::u64("deleted key");
        q.add_delete_keys(key);
        want.erase(key);
      }
      for (int k = 0; k < nu; k++) {
        auto* u = q.add_updates();
        u->set_key(verif::u64("updated key"));
        u->set_priority((double)(int8_t)verif_sym(8, "new priority"));
        M* m = refused ? nullptr : want.find(u->key());
        if (m) {
          if (u->priority() < 0) refused = true;
          else m->prio = u->priority();
        }
      }
      auto s = call(service.get(), &Service::MutatePriorities, q, &r);
      if (i == 2) { VCHECK(is(s, grpc::StatusCode::NOT_FOUND), "an unknown table is an error"); verif_reach("unknown"); }
      else if (refused) {
        VCHECK(is(s, grpc::StatusCode::INVALID_ARGUMENT), "a priority that the table refuses is an error");
        tb[i].m = want;
        verif_reach("refused");
      } else {
        VCHECK(s.ok(), "priorities are changed, and unknown keys are ignored");
        tb[i].m = want;
        verif_reach("mutated");
      }
    } else if (op == 2) {
      ServerInfoRequest q; ServerInfoResponse r;
      VCHECK(call(service.get(), &Service::ServerInfo, q, &r).ok(), "the server reports");
      VCHECK(r.table_info_size() == 2, "every table is reported");
      int seen = 0;
      for (auto& ti : r.table_info()) {
        int i = ti.name() == "a" ? 0 : 1;
        VCHECK(ti.name() == kNames[i], "under its name");
        seen |= 1 << i;
        VCHECK(ti.max_size() == 10 + i && ti.max_times_sampled() == 7 && ti.current_size() == (int64_t)tb[i].m.size(), "with its limits and size");
        VCHECK(ti.num_episodes() == (int64_t)tb[i].m.size() && ti.SerializeAsString() == tb[i].t->info().SerializeAsString(), "with all else that is known of it");
      }
      VCHECK(seen == 3, "every table is reported once");
      if (have_first) VCHECK(r.tables_state_id().SerializeAsString() == first.tables_state_id().SerializeAsString(), "the id of the state changes only with the server");
      first = r;
      have_first = true;
      verif_reach("info");
    } else {
      CheckpointRequest q; CheckpointResponse r;
      if (ck) {
        ck->saved.clear();
        ck->save = absl::Status((absl::StatusCode)verif::range(0, 16, "result of the save"), "msg");
      }
      auto s = call(service.get(), &Service::Checkpoint, q, &r);
      if (!ck) { VCHECK(is(s, grpc::StatusCode::INVALID_ARGUMENT), "there is no checkpoint without a checkpointer"); verif_reach("no checkpointer"); continue; }
      VCHECK(ck->saved.size() == 1 && ck->saved[0].size() == 2 && ck->keep >= 1, "one checkpoint is made");
      VCHECK((ck->saved[0][0] == tb[0].t.get() && ck->saved[0][1] == tb[1].t.get()) || (ck->saved[0][1] == tb[0].t.get() && ck->saved[0][0] == tb[1].t.get()), "of all the tables");
      VCHECK((int)s.error_code() == (int)ck->save.code(), "the outcome is reported");
      if (s.ok()) VCHECK(r.checkpoint_path() == ck->path, "with the path");
      else VCHECK(s.error_message() == "msg", "with the message");
      verif_reach("checkpoint");
    }
    vs_run_others();
    check_tables();
  }
  service->Close();
  service.reset();
}
#elif MODE == 1
absl::Status outcome(const char* what) {
  return absl::Status((absl::StatusCode)verif::range(0, 16, what), what);
}
void run() {
  v_rng.mode = 2;
  auto ck = std::make_shared<Mocked>();
  ck->latest = outcome("latest");
  ck->fallback = outcome("fallback");
  std::vector<std::shared_ptr<Table>> tables;
  int n = 1 + choose(2, "tables");
  for (int i = 0; i < n; i++) {
    tables.push_back(make(kNames[i], 10));
    ck->replacement.push_back(make(kNames[i], 20));
  }
  bool with = flip("checkpointer");
  auto s = with ? Service::Create(tables, ck, &service) : Service::Create(tables, &service);
  vs_run_others();
  bool tried_fallback = with && absl::IsNotFound(ck->latest);
  absl::Status last = tried_fallback ? ck->fallback : ck->latest;
  VCHECK(ck->n_latest == with && ck->n_fallback == tried_fallback, "the fallback is used only when there is no checkpoint");
  if (with && !last.ok() && !absl::IsNotFound(last)) {
    VCHECK(s == last && !service, "a checkpoint that cannot be loaded stops the service");
    verif_reach("bad checkpoint");
    return;
  }
  VCHECK(s.ok() && service, "the service starts");
  auto& want = with && last.ok() ? ck->replacement : tables;
  verif_reach(with && last.ok() ? "loaded" : "empty");
  auto have = service->tables();
  VCHECK(have.size() == want.size(), "with its tables");
  for (int i = 0; i < n; i++) {
    auto it = have.find(std::string(kNames[i]));
    VCHECK(it != have.end() && it->second == want[i], "with those of the checkpoint if there is one");
  }
  service->Close();
  have.clear();
  service.reset();
  for (auto& t : want) VCHECK(t.use_count() == 1 + (int)(0), "a service that ends lets go of its tables");
}
#else
void run() {
  v_rng.mode = 2;
  vs_cfg.preempt = PREEMPT;
  vs_cfg.delays = DELAYS;
  for (int i = 0; i < 2; i++) tb[i].t = make(kNames[i], 10 + i);
  std::vector<std::shared_ptr<Table>> tables = {tb[0].t, tb[1].t};
  VCHECK(Service::Create(tables, &service).ok(), "the service starts");
  tables.clear();
  vs_run_others();
  long uses[2] = {tb[0].t.use_count(), tb[1].t.use_count()};
  static const struct { const char* peer; bool local; } kPeers[] = {
      {"ipv4:127.0.0.1:80", true}, {"ipv6:[::1]:80", true}, {"unknown", true}, {"ipv4:10.0.0.1:80", false}, {"ipv6:[fe80::1]:80", false}, {"", false}};
  int p = choose(6, "peer"), i = choose(3, "table");
  int64_t pid = (int32_t)verif_sym(32, "pid");
  bool same = pid == getpid();
  int second = choose(4, "confirmation");  // 0 sent, 1 refused, 2 half-closed instead, 3 cancelled instead
  int first = choose(3, "request");        // 0 sent, 1 half-closed instead, 2 cancelled instead
  bool break_write = flip("broken write");
  std::shared_ptr<Table> mine;
  {
    Stream st;
    st.ctx.v_peer = kPeers[p].peer;
    InitializeConnectionRequest q;
    q.set_pid(pid);
    q.set_table_name(kNames[i]);
    if (first == 0) st.script.push_back(q);
    if (break_write) st.fail_write = 0;
    bool addressed = false;
    st.on_message = [&](const InitializeConnectionResponse& r) {
      VCHECK(st.out.size() == 1, "one response");
      if (r.address() == 0) return;
      VCHECK(same && kPeers[p].local && i < 2, "only a client of the same process gets a table, and it must exist");
      addressed = true;
      auto* sp = reinterpret_cast<std::shared_ptr<Table>*>(r.address());
      VCHECK(sp->get() == tb[i].t.get(), "and it is the one it asked for");
      if (second == 2) { st.half_closed = true; return; }
      if (second == 3) { st.cancel(); return; }
      mine = *sp;
      q.set_ownership_transferred(second == 0);
      st.script.push_back(q);
    };
    if (first == 1) st.half_closed = true;
    if (first == 2) st.cancel();
#if ASYNC
    st.start(service->InitializeConnection(&st.ctx));
#else
    st.start([](Stream* s) {
      grpc::ServerReaderWriter<InitializeConnectionResponse, InitializeConnectionRequest> rw(s);
      return service->InitializeConnection(&s->ctx, &rw);
    });
#endif
    vs_run_others();
    VCHECK(st.done, "the call ends by itself");
    st.join();
    if (!kPeers[p].local) {
      VCHECK(st.status.ok() && st.out.empty(), "a remote client is told nothing");
      verif_reach("remote");
    } else if (first) {
      VCHECK(!st.status.ok() && st.out.empty(), "a call without a request fails");
      verif_reach("no request");
    } else if (!same) {
      VCHECK(!addressed, "no table for another process");
      if (!break_write) VCHECK(st.status.ok() && st.out.size() == 1, "another process is told that it is one");
      verif_reach("other process");
    } else if (i == 2) {
      VCHECK(is(st.status, grpc::StatusCode::NOT_FOUND) && st.out.empty(), "an unknown table is an error");
      verif_reach("unknown");
    } else if (break_write) {
      VCHECK(!st.status.ok(), "a broken connection is an error");
      verif_reach("broken");
    } else {
      VCHECK(addressed, "a client of the same process gets the table");
      VCHECK(st.status.ok() == (second == 0), "the call succeeds if the client confirms");
      verif_reach(second == 0 ? "shared" : "unconfirmed");
    }
  }
  for (int k = 0; k < 2; k++) VCHECK(tb[k].t.use_count() == uses[k] + (mine && i == k ? 1 : 0), "nothing but what the client holds refers to the table afterwards");
  if (mine) VCHECK(mine == tb[i].t, "the table stays usable");
  mine.reset();
  service->Close();
  service.reset();
}
#endif
}  // namespace
extern "C" void verif_main() {
#if ASYNC
  FLAGS_reverb_callback_executor_num_threads = 1;
#endif
  run();
}
