// C27: the client: what it asks the server, what it believes about the tables,
// and what it returns, for any history of calls and of server states.
#include <thread>
#include "mock_insert.h"
#include "reverb/cc/client.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/support/grpc_util.h"
#include "reverb/cc/support/uint128.h"
#include "reverb/cc/table.h"
#include "reverb/cc/tensor_compression.h"
#include "reverb/cc/trajectory_writer.h"
#include "reverb/cc/writer.h"
#include <unistd.h>
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
// What table "t" of the server looks like.
enum { kMissing, kFree, kInt, kTwo, kBad, kKinds };
struct State { uint64_t hi, lo; int kind; };
State now;
int info_calls = 0, samples_opened = 0, connects = 0;
int64_t last_timeout;      // what the caller asked for; kVsInf for any time
absl::Status next_status;  // of the next call
bool is_ok() { return next_status.ok(); }
void check_deadline(grpc::ClientContext* c, int64_t timeout) {
  if (timeout == kVsInf) VCHECK(!c->v.has_deadline, "no deadline was asked for");
  else VCHECK(c->v.has_deadline && c->v.deadline == vs_now() + timeout, "the deadline is the one asked for");
}
grpc::Status status() { return grpc::Status((grpc::StatusCode)next_status.code(), std::string(next_status.message())); }
// A peer that hands out its table to a client of the same process.
enum { kRemote, kOther, kSame, kRefused, kBreaks, kFails };
int peer = kRemote;
int breaks_at = 0;
std::shared_ptr<Table> local;
struct Connect : grpc::ClientReaderWriterInterface<InitializeConnectionRequest, InitializeConnectionResponse> {
  int writes = 0, reads = 0, finishes = 0;
  std::unique_ptr<std::shared_ptr<Table>> ptr;
  bool ended = false;
  bool Write(const InitializeConnectionRequest& r, grpc::WriteOptions) override {
    VCHECK(r.pid() == getpid() && r.table_name() == "t", "the client says who it is and what it wants");
    VCHECK(r.ownership_transferred() == (writes == 1), "the table is acknowledged when it was received");
    if (peer == kBreaks && breaks_at == writes) ended = true;
    writes++;
    if (ended) return false;
    if (writes == 2) { VCHECK(ptr && ptr->use_count() == before + 1, "the client holds the table when it acknowledges it"); }
    return true;
  }
  bool Read(InitializeConnectionResponse* r) override {
    VCHECK(writes == 1 && reads == 0, "one response to the request");
    reads++;
    if (peer == kRemote || peer == kFails || ended) return false;
    if (peer == kOther) { r->set_address(0); return true; }
    ptr = std::make_unique<std::shared_ptr<Table>>(local);
    before = local.use_count();
    r->set_address((int64_t)(intptr_t)ptr.get());
    return true;
  }
  bool WritesDone() override { return true; }
  grpc::Status Finish() override {
    VCHECK(++finishes == 1, "finished once");
    ptr.reset();
    if (peer == kRefused || peer == kBreaks) return grpc::Status(grpc::StatusCode::INTERNAL, "refused");
    if (peer == kFails) return grpc::Status(grpc::StatusCode::UNAVAILABLE, "no");
    return grpc::Status::OK;
  }
  long before = 0;
};
struct Ended : grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse> {
  bool Write(const SampleStreamRequest& r, grpc::WriteOptions) override {
    VCHECK(r.table() == "t" && r.flexible_batch_size() == 3 && r.rate_limiter_timeout().milliseconds() == 7 && r.num_samples() == 1, "the options of the sampler are used");
    return false;
  }
  bool Read(SampleStreamResponse*) override { return false; }
  bool WritesDone() override { return true; }
  grpc::Status Finish() override { return grpc::Status(grpc::StatusCode::INTERNAL, "remote"); }
};
std::function<void(grpc::ClientContext*)> on_reset, on_checkpoint;
MutatePrioritiesRequest mutate_seen;
ResetRequest reset_seen;
int plain_calls = 0;
struct Stub : mock::Stub {
  using mock::Stub::Stub;
  grpc::Status Info(grpc::ClientContext* c, ServerInfoResponse* r) override {
    info_calls++;
    check_deadline(c, last_timeout);
    VCHECK(c->wait_ready, "the client waits for the server to come up");
    State s = now;
    grpc::Status st = status();
    vs_yield();
    if (!st.ok()) return st;
    *r->mutable_tables_state_id() = Uint128ToMessage(absl::MakeUint128(s.hi, s.lo));
    auto* other = r->add_table_info();
    other->set_name("other");
    other->mutable_signature()->mutable_tensor_spec_value()->set_dtype(tf::DT_FLOAT);
    if (s.kind == kMissing) return st;
    auto* t = r->add_table_info();
    t->set_name("t");
    t->set_max_size(77);
    if (s.kind == kBad) t->mutable_signature()->set_string_value("x");
    int n = s.kind == kInt ? 1 : s.kind == kTwo ? 2 : 0;
    for (int i = 0; i < n; i++) {
      auto* sp = t->mutable_signature()->mutable_list_value()->add_values()->mutable_tensor_spec_value();
      sp->set_name("x");
      sp->set_dtype(tf::DT_INT32);
    }
    return st;
  }
  grpc::Status MutatePriorities(grpc::ClientContext* c, const MutatePrioritiesRequest& q, MutatePrioritiesResponse*) override {
    check_deadline(c, last_timeout);
    plain_calls++;
    mutate_seen = q;
    return status();
  }
  grpc::Status Reset(grpc::ClientContext* c, const ResetRequest& q, ResetResponse*) override {
    check_deadline(c, kVsInf);
    plain_calls++;
    reset_seen = q;
    return status();
  }
  grpc::Status Checkpoint(grpc::ClientContext* c, const CheckpointRequest&, CheckpointResponse* r) override {
    check_deadline(c, kVsInf);
    plain_calls++;
    if (is_ok()) r->set_checkpoint_path("/dir/ckpt");
    return status();
  }
  grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* Sample(grpc::ClientContext*) override { samples_opened++; return new Ended; }
  grpc::ClientReaderWriterInterface<InitializeConnectionRequest, InitializeConnectionResponse>* InitializeConnectionRaw(grpc::ClientContext*) override { connects++; return new Connect; }
};
Sampler::Options options() {
  Sampler::Options o;
  o.num_workers = 1;
  o.max_samples = 1;
  o.max_in_flight_samples_per_worker = 1;
  o.flexible_batch_size = 3;
  o.rate_limiter_timeout = absl::Milliseconds(7);
  return o;
}
tf::Tensor scalar(tf::DataType dt) { return tf::Tensor(dt, tf::TensorShape({})); }

// What the client should know.
bool cached = false;
State known;
// What a call that needs the signatures does: nothing, or ask the server.
absl::Status learn(bool forced, int* calls) {
  if (cached && !forced) return absl::OkStatus();
  ++*calls;
  if (!is_ok()) return next_status;
  if (cached && known.hi == now.hi && known.lo == now.lo) return absl::OkStatus();
  if (now.kind == kBad) return absl::InvalidArgumentError("");
  cached = true;
  known = now;
  return absl::OkStatus();
}
void same(const absl::Status& got, const absl::Status& want) {
  VCHECK(got.code() == want.code(), "errors of the server reach the caller");
  if (!want.message().empty()) VCHECK(got.message() == want.message(), "with their message");
}
void pick_status() {
  next_status = absl::Status((absl::StatusCode)verif::range(0, 16, "result of the call"), "msg");
}
absl::Duration pick_timeout() {
  last_timeout = flip("no timeout") ? kVsInf : verif::range(0, 1ll << 50, "timeout");
  return last_timeout == kVsInf ? absl::InfiniteDuration() : absl::Nanoseconds(last_timeout);
}
// Whether a sampler of table "t" must accept data of n int32 scalars.
bool data_ok(Sampler* s, int n) {
  std::vector<tf::Tensor> data;
  for (auto dt : {tf::DT_UINT64, tf::DT_DOUBLE, tf::DT_INT64, tf::DT_DOUBLE}) data.push_back(scalar(dt));
  for (int i = 0; i < n; i++) data.push_back(scalar(tf::DT_INT32));
  return s->ValidateAgainstOutputSpec(data, Sampler::ValidationMode::kTimestep).ok();
}
bool matches(int kind, int n) { return kind == kMissing || kind == kFree || (kind == kInt && n == 1) || (kind == kTwo && n == 2); }

#if MODE == 0
void server_changes(bool kinds) {
  now.hi = verif::u64("state id");
  now.lo = verif::u64("state id");
  now.kind = choose(kinds ? kKinds : kBad, "table");
}
void run() {
  mock::Server server;
  auto stub = std::make_shared<Stub>(&server);
  Client client(stub);
  server_changes(true);
  for (int o = 0; o < NOPS; o++) {
    if (o > 0 && flip("server changes")) server_changes(true);
    pick_status();
    int before = info_calls, calls = 0;
    int opened = samples_opened;
    switch (choose(6, "call")) {
      case 0: {
        struct Client::ServerInfo info;
        auto s = client.ServerInfo(pick_timeout(), &info);
        State seen = now;
        auto want = learn(true, &calls);
        same(s, want);
        VCHECK(info_calls == before + calls, "the server is asked");
        if (!s.ok()) { verif_reach("info fails"); break; }
        VCHECK(info.tables_state_id == absl::MakeUint128(seen.hi, seen.lo), "its state is reported");
        VCHECK(info.table_info.size() == (seen.kind == kMissing ? 1 : 2) && info.table_info[0].name() == "other", "its tables are reported");
        if (seen.kind != kMissing) VCHECK(info.table_info[1].max_size() == 77 && info.table_info[1].has_signature() == (seen.kind != kFree), "with all that is known of them");
        verif_reach("info");
        break;
      }
      case 1: {
        std::unique_ptr<Sampler> sampler;
        int n = 1 + choose(2, "requested");
        tf::DataTypeVector dts = {tf::DT_UINT64, tf::DT_DOUBLE, tf::DT_INT64, tf::DT_DOUBLE};
        for (int i = 0; i < n; i++) dts.push_back(tf::DT_INT32);
        std::vector<tf::PartialTensorShape> shapes(dts.size(), tf::PartialTensorShape(std::initializer_list<int64_t>{}));
        auto opts = options();
        bool bad = flip("bad options");
        if (bad) opts.num_workers = -5;
        auto s = client.NewSampler("t", opts, dts, shapes, pick_timeout(), &sampler);
        auto want = learn(false, &calls);
        VCHECK(info_calls == before + calls, "the server is asked only if nothing is known");
        if (want.ok() && (!matches(known.kind, n) || bad)) want = absl::InvalidArgumentError("");
        same(s, want);
        VCHECK(s.ok() == (sampler != nullptr), "there is a sampler exactly if the call succeeds");
        if (s.ok()) {
          VCHECK(data_ok(sampler.get(), n) && !data_ok(sampler.get(), n + 1), "what was asked for is expected");
          verif_reach("sampler");
        } else {
          verif_reach("sampler refused");
        }
        break;
      }
      case 2: {
        std::unique_ptr<Sampler> sampler;
        bool at_once = flip("at once");
        auto s = client.NewSampler("t", options(), at_once ? -absl::InfiniteDuration() : pick_timeout(), &sampler);
        bool knows = at_once ? cached : learn(false, &calls).ok();
        VCHECK(info_calls == before + calls, "the server is asked only if nothing is known");
        if (!knows) break;  // created without, or not created
        VCHECK(s.ok() && sampler, "a sampler needs no matching");
        VCHECK(data_ok(sampler.get(), 1) == matches(known.kind, 1) && data_ok(sampler.get(), 2) == matches(known.kind, 2), "the data is checked against the signature of the table");
        verif_reach("sampler by signature");
        break;
      }
      case 3: {
        std::unique_ptr<Sampler> sampler;
        VCHECK(client.NewSamplerWithoutSignatureCheck("t", options(), &sampler).ok(), "a sampler without checks");
        VCHECK(info_calls == before && data_ok(sampler.get(), 1) && data_ok(sampler.get(), 2), "is not checked");
        break;
      }
      case 4: {
        std::unique_ptr<TrajectoryWriter> w;
        TrajectoryWriter::Options opts;
        bool bad = flip("bad options");
        opts.chunker_options = std::make_shared<ConstantChunkerOptions>(bad ? -1 : 1, 1);
        bool with = !flip("without signatures");
        auto s = with ? client.NewTrajectoryWriter(opts, pick_timeout(), &w) : client.NewTrajectoryWriter(opts, &w);
        auto want = with ? learn(false, &calls) : absl::OkStatus();
        VCHECK(info_calls == before + calls, "the server is asked only if nothing is known");
        if (want.ok() && bad) want = absl::InvalidArgumentError("");
        same(s, want);
        VCHECK(s.ok() == (w != nullptr), "there is a writer exactly if the call succeeds");
        if (!s.ok()) break;
        std::vector<absl::optional<std::weak_ptr<CellRef>>> r;
        VCHECK(w->Append({scalar(tf::DT_INT32)}, &r).ok(), "append succeeds");
        std::vector<TrajectoryColumn> tr;
        tr.emplace_back(std::vector<std::weak_ptr<CellRef>>{*r[0]}, true);
        bool fits = !with || (known.kind != kMissing && matches(known.kind, 1));
        VCHECK(w->CreateItem("t", 1.0, tr).ok() == fits, "items are checked against the signature of the table");
        VCHECK(w->Flush().ok(), "flush succeeds");
        verif_reach("trajectory writer");
        break;
      }
      case 5: {
        std::unique_ptr<Writer> w;
        last_timeout = kVsInf;
        auto s = client.NewWriter(1, 1, false, &w);
        auto want = learn(false, &calls);
        VCHECK(info_calls == before + calls, "the server is asked only if nothing is known");
        same(s, want);
        VCHECK(s.ok() == (w != nullptr), "there is a writer exactly if the call succeeds");
        if (!s.ok()) break;
        VCHECK(w->Append({scalar(tf::DT_INT32)}).ok(), "append succeeds");
        bool fits = known.kind != kMissing && matches(known.kind, 1);
        VCHECK(w->CreateItem("t", 1, 1.0).ok() == fits, "items are checked against the signature of the table");
        VCHECK(w->Close().ok(), "close succeeds");
        verif_reach("writer");
        break;
      }
    }
    VCHECK(samples_opened - opened <= 1, "a sampler of one sample and worker opens one stream");
  }
}
#elif MODE == 1
// A table of the same process is sampled directly, any other through the server.
void run() {
  mock::Server server;
  local = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 10, 0, std::make_shared<RateLimiter>(1.0, 1, -100.0, 100.0));
  Table::Item it;
  it.item.set_key(verif::u64("key"));
  it.item.set_table("t");
  it.item.set_priority(2);
  ChunkData d;
  d.set_chunk_key(5);
  d.mutable_sequence_range()->set_episode_id(1);
  d.set_data_tensors_len(1);
  tf::Tensor t(tf::DT_INT32, tf::TensorShape({1}));
  t.flat<int32_t>()(0) = (int32_t)verif_sym(32, "element");
  CompressTensorAsProto(t, d.mutable_data()->add_tensors());
  auto* sl = it.item.mutable_flat_trajectory()->add_columns()->add_chunk_slices();
  sl->set_chunk_key(5);
  sl->set_length(1);
  it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(std::move(d)));
  uint64_t key = it.item.key();
  VCHECK(local->InsertOrAssign(std::move(it)).ok(), "an item is inserted");
  peer = choose(6, "peer");
  if (peer == kBreaks) breaks_at = choose(2, "break");
  auto stub = std::make_shared<Stub>(&server);
  Client client(stub);
  now = State{1, 2, kInt};
  last_timeout = 1000;
  long uses = local.use_count();
  {
    std::unique_ptr<Sampler> sampler;
    absl::Status s;
    switch (choose(3, "kind")) {
      case 0: s = client.NewSamplerWithoutSignatureCheck("t", options(), &sampler); break;
      case 1: s = client.NewSampler("t", options(), absl::Nanoseconds(1000), &sampler); break;
      case 2:
        s = client.NewSampler("t", options(), {tf::DT_UINT64, tf::DT_DOUBLE, tf::DT_INT64, tf::DT_DOUBLE, tf::DT_INT32},
                              std::vector<tf::PartialTensorShape>(5, tf::PartialTensorShape(std::initializer_list<int64_t>{})), absl::Nanoseconds(1000), &sampler);
    }
    VCHECK(s.ok() && connects == 1, "a sampler is created wherever the server is");
    std::vector<tf::Tensor> data;
    bool end;
    s = sampler->GetNextTimestep(&data, &end);
    if (peer == kSame) {
      VCHECK(s.ok() && data.size() == 5 && data[0].scalar<uint64_t>()() == key && data[4].scalar<int32_t>()() == t.flat<int32_t>()(0), "a local table is sampled directly");
      VCHECK(samples_opened == 0, "without a stream");
      verif_reach("local");
    } else {
      VCHECK(s.code() == absl::StatusCode::kInternal && s.message() == "remote" && samples_opened == 1, "otherwise through the server");
      verif_reach("remote");
    }
  }
  VCHECK(local.use_count() == uses, "a sampler that is gone does not hold the table");
}
#elif MODE == 2
void run() {
  mock::Server server;
  auto stub = std::make_shared<Stub>(&server);
  Client client(stub);
  for (int o = 0; o < NOPS; o++) {
    pick_status();
    std::string table = choose(2, "table") ? "t" : "";
    int before = plain_calls;
    switch (choose(3, "call")) {
      case 0: {
        std::vector<KeyWithPriority> up;
        std::vector<uint64_t> del;
        int nu = choose(3, "updates"), nd = choose(3, "deletes");
        for (int i = 0; i < nu; i++) {
          KeyWithPriority k;
          k.set_key(verif::u64("key"));
          k.set_priority(verif::f64("priority"));
          up.push_back(k);
        }
        for (int i = 0; i < nd; i++) del.push_back(verif::u64("deleted"));
        absl::Duration d = pick_timeout();
        same(client.MutatePriorities(table, up, del, d), next_status);
        VCHECK(mutate_seen.table() == table && mutate_seen.updates_size() == nu && mutate_seen.delete_keys_size() == nd, "the request is passed on");
        for (int i = 0; i < nu; i++) {
          double a = mutate_seen.updates(i).priority(), b = up[i].priority();
          VCHECK(mutate_seen.updates(i).key() == up[i].key() && memcmp(&a, &b, 8) == 0, "with every update");
        }
        for (int i = 0; i < nd; i++) VCHECK(mutate_seen.delete_keys(i) == del[i], "and every deletion");
        verif_reach("mutate");
        break;
      }
      case 1:
        same(client.Reset(table), next_status);
        VCHECK(reset_seen.table() == table, "the table is named");
        verif_reach("reset");
        break;
      case 2: {
        std::string path = "before";
        auto s = client.Checkpoint(&path);
        same(s, next_status);
        VCHECK(path == (s.ok() ? "/dir/ckpt" : "before"), "the path is returned");
        verif_reach("checkpoint");
        break;
      }
    }
    VCHECK(plain_calls == before + 1, "one call to the server");
  }
}
#else
// Callers at the same time, while the server changes: each gets the signatures
// of a state the server was in.
void run() {
  mock::Server server;
  auto stub = std::make_shared<Stub>(&server);
  Client client(stub);
  now = State{1, 1, kInt};
  last_timeout = kVsInf;
  vs_cfg.preempt = PREEMPT;
  std::vector<std::thread> th;
  for (int i = 0; i < THREADS; i++) {
    int what = choose(3, "call");
    th.emplace_back([&, what] {
      if (what == 0) {
        struct Client::ServerInfo info;
        VCHECK(client.ServerInfo(&info).ok() && info.table_info.size() == 2, "the server answers");
      } else if (what == 1) {
        std::unique_ptr<Sampler> s;
        VCHECK(client.NewSampler("t", options(), absl::InfiniteDuration(), &s).ok(), "a sampler is created");
        bool one = data_ok(s.get(), 1), two = data_ok(s.get(), 2);
        VCHECK(one != two, "it uses the signature of one state of the server");
        verif_reach(one ? "old" : "new");
      } else {
        std::unique_ptr<TrajectoryWriter> w;
        TrajectoryWriter::Options opts;
        opts.chunker_options = std::make_shared<ConstantChunkerOptions>(1, 1);
        VCHECK(client.NewTrajectoryWriter(opts, absl::InfiniteDuration(), &w).ok() && w, "a writer is created");
      }
    });
  }
  if (flip("server changes")) { vs_yield(); now = State{1, 2, kTwo}; }
  for (auto& t : th) t.join();
  struct Client::ServerInfo info;
  VCHECK(client.ServerInfo(&info).ok(), "the server answers");
  std::unique_ptr<Sampler> s;
  VCHECK(client.NewSampler("t", options(), absl::InfiniteDuration(), &s).ok(), "a sampler is created");
  VCHECK(data_ok(s.get(), 1) == (now.kind == kInt) && data_ok(s.get(), 2) == (now.kind == kTwo), "asking the server refreshes what is known");
  verif_reach("refreshed");
}
#endif
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 1;
  run();
}
