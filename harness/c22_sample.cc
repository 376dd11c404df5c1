// C22: sample streams of the service, with any requests, against the table's
// own record of what was sampled.
#include "grpc_driver.h"
#include "table_common.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#if ASYNC
extern size_t FLAGS_reverb_callback_executor_num_threads;
#endif
using namespace deepmind::reverb;
using namespace tm;
namespace {
#if ASYNC
using Stream = AsyncCall<SampleStreamRequest, SampleStreamResponse>;
std::unique_ptr<ReverbServiceAsyncImpl> service;
#else
using Stream = SyncCall<SampleStreamRequest, SampleStreamResponse>;
std::unique_ptr<ReverbServiceImpl> service;
#endif
constexpr int64_t kLimit = 150;  // kMaxSampleResponseSizeBytes, scaled
constexpr int64_t kMs = 1000000;
struct Sampled { uint64_t key; int times; double prio; };
struct Log : Ext {
  std::vector<Sampled> s;
  void OnSample(absl::Mutex*, const ExtensionItem& i) override { s.push_back({i.ref->item.key(), i.times_sampled, i.priority}); }
};
struct Got : Sampled { std::vector<uint64_t> chunks; };
std::shared_ptr<Table> table;
std::shared_ptr<Log> tlog;
std::vector<std::vector<uint64_t>> item_chunks;  // by key
std::vector<double> item_prio;
Stream streams[STREAMS];
std::vector<Got> got[STREAMS];
bool open_sample[STREAMS];
bool checked_sizes = true;

std::string content(uint64_t key, bool big) { return absl::StrCat("data", key, big ? std::string(120, 'x') : ""); }
std::map<uint64_t, std::string> sent;
void add_item(uint64_t key) {
  Table::Item it;
  it.item.set_key(key);
  it.item.set_table("a");
  it.item.set_priority(10.0 + key);
  auto* col = it.item.mutable_flat_trajectory()->add_columns();
  int n = 1 + choose(CHUNKS, "chunks of the item");
  item_chunks.resize(key + 1);
  item_prio.resize(key + 1);
  item_prio[key] = 10.0 + key;
  for (int i = 0; i < n; i++) {
    ChunkData d;
    uint64_t k = 10 * key + i;
    d.set_chunk_key(k);
    d.mutable_sequence_range()->set_episode_id(key);
    sent[k] = content(k, SIZES > 1 && flip("big"));
    d.mutable_data()->add_tensors()->set_tensor_content(sent[k]);
    auto c = std::make_shared<ChunkStore::Chunk>(std::move(d));
    auto* sl = col->add_chunk_slices();
    sl->set_chunk_key(k);
    sl->set_length(1);
    it.chunks.push_back(c);
    item_chunks[key].push_back(k);
  }
  bool more;
  if (ASYNC) {
    VCHECK(table->InsertOrAssignAsync(std::move(it), &more, std::weak_ptr<std::function<void(const absl::Status&)>>()).ok(), "an item is inserted");
  } else {
    VCHECK(table->InsertOrAssign(std::move(it)).ok(), "an item is inserted");
  }
}
void receive(int s, const SampleStreamResponse& r) {
  VCHECK(r.entries_size() > 0, "a message has entries");
  int64_t before_last = 0, total = 0;
  for (auto& e : r.entries()) {
    if (e.has_info()) {
      VCHECK(!open_sample[s], "samples are not mixed");
      open_sample[s] = true;
      auto& i = e.info();
      Got g;
      g.key = i.item().key();
      g.times = i.item().times_sampled();
      g.prio = i.item().priority();
      VCHECK(g.key < item_chunks.size() && i.item().table() == "a", "the sample is of an item of the table");
      VCHECK(g.prio == item_prio[g.key], "with its priority");
      VCHECK(i.item().has_inserted_at() && i.item().flat_trajectory().columns_size() == 1, "with its trajectory and time of insertion");
      VCHECK(i.item().flat_trajectory().columns(0).chunk_slices_size() == (int)item_chunks[g.key].size(), "with its whole trajectory");
      VCHECK(i.probability() == 1.0 && i.table_size() >= 1 && i.table_size() <= (int64_t)item_chunks.size(), "with information about the table");
      got[s].push_back(g);
    }
    VCHECK(open_sample[s], "a sample begins with its information");
    VCHECK(e.data_size() > 0, "an entry has data");
    auto& g = got[s].back();
    for (auto& d : e.data()) {
      VCHECK(d.data().tensors_size() == 1 && d.data().tensors(0).tensor_content() == sent[d.chunk_key()], "chunks arrive as they were inserted");
      g.chunks.push_back(d.chunk_key());
      before_last = total;
      total += d.ByteSizeLong();
    }
    VCHECK(e.end_of_sequence() == (g.chunks.size() == item_chunks[g.key].size()), "the last entry of a sample is marked, no other");
    VCHECK(g.chunks.size() <= item_chunks[g.key].size() && std::equal(g.chunks.begin(), g.chunks.end(), item_chunks[g.key].begin()), "a sample has all its chunks, in order");
    if (e.end_of_sequence()) open_sample[s] = false;
  }
  VCHECK(before_last <= kLimit, "a message exceeds the limit by less than one chunk");
  if (total > kLimit) verif_reach("exceeded");
  if (r.entries_size() > 1) verif_reach("several entries");
}
struct Want {
  int64_t samples = 0;
  bool error = false;
  grpc::StatusCode codes[2];
  int64_t timeout = -1;  // of the request that could not be answered
  bool blocked = false;
};
std::vector<SampleStreamRequest> requests[STREAMS];
void build(int s) {
  static const int64_t kNum[] = {1, 2, 3, 0, -1, 1ll << 32, 1ll << 31, (1ll << 32) + 1};
  static const int64_t kFlex[] = {2, 1, -1, 3, 0, -2, 1ll << 32, 1ll << 31, 1ll << 33};
  static const int64_t kTimeout[] = {-1, 5, 0, -7};
  for (int n = 0; n < NREQ; n++) {
    SampleStreamRequest r;
    r.set_table(TABLES > 1 && flip("unknown table") ? "u" : "a");
    r.set_num_samples(kNum[choose(NUMS, "num_samples")]);
    r.set_flexible_batch_size(kFlex[choose(FLEX, "flexible_batch_size")]);
    int t = choose(TIMEOUTS, "timeout");
    if (t > 0) r.mutable_rate_limiter_timeout()->set_milliseconds(kTimeout[t - 1]);
    streams[s].script.push_back(r);
  }
  streams[s].on_message = [s](const SampleStreamResponse& r) { receive(s, r); };
}
// What stream s gets when the table can hand out `avail` samples.
Want expect(int s, int64_t* avail) {
  Want w;
  for (auto& r : streams[s].script) {
    bool bad = r.num_samples() <= 0 || (r.flexible_batch_size() <= 0 && r.flexible_batch_size() != -1);
    if (bad || r.table() != "a") {
      w.error = true;
      w.codes[0] = bad ? grpc::StatusCode::INVALID_ARGUMENT : grpc::StatusCode::NOT_FOUND;
      w.codes[1] = r.table() != "a" ? grpc::StatusCode::NOT_FOUND : grpc::StatusCode::INVALID_ARGUMENT;
      return w;
    }
    int64_t n = std::min(*avail, r.num_samples());
    w.samples += n;
    *avail -= n;
    if (n < r.num_samples()) {
      w.blocked = true;
      if (r.has_rate_limiter_timeout() && r.rate_limiter_timeout().milliseconds() >= 0) w.timeout = r.rate_limiter_timeout().milliseconds();
      return w;
    }
  }
  return w;
}
void compare(bool broken) {
  // The table's record of samples is what was delivered, in order.
  size_t total = 0;
  for (int s = 0; s < STREAMS; s++) {
    size_t at = 0;
    for (size_t i = 0; i < got[s].size(); i++) {
      auto& g = got[s][i];
      while (at < tlog->s.size() && !(tlog->s[at].key == g.key && tlog->s[at].times == g.times)) at++;
      VCHECK(at < tlog->s.size(), "what is delivered was sampled, in that order");
      at++;
      bool last = i + 1 == got[s].size();
      VCHECK((last && broken) || g.chunks.size() == item_chunks[g.key].size(), "samples are complete");
    }
    total += got[s].size();
  }
  VCHECK(total <= tlog->s.size(), "nothing is delivered twice");
  if (!broken) VCHECK(total == tlog->s.size(), "everything that is sampled is delivered");
}
}  // namespace
extern "C" void verif_main() {
  vs_cfg.idle_is_bug = true;
  tlog = std::make_shared<Log>();
  // The table hands out as many samples as inserts plus SURPLUS.
  int surplus = choose(SURPLUS + 1, "surplus");
  int max_times = choose(TIMES, "max_times_sampled");
  table = std::make_shared<Table>("a", make_selector(kFifo), make_selector(kFifo), 20, max_times,
                                  std::make_shared<RateLimiter>(1.0, 1, -(double)surplus, 1000.0),
                                  std::vector<std::shared_ptr<TableExtension>>{tlog});
#if ASYNC
  FLAGS_reverb_callback_executor_num_threads = EXECUTORS;
  VCHECK(ReverbServiceAsyncImpl::Create({table}, &service).ok(), "a service is created");
#else
  VCHECK(ReverbServiceImpl::Create({table}, &service).ok(), "a service is created");
#endif
  for (int i = 0; i < ITEMS; i++) add_item(i);
  for (int s = 0; s < STREAMS; s++) build(s);
  vs_run_others();
  // Samples the table hands out: limited by the limiter, and by the items.
  int64_t avail = ITEMS + surplus;
  if (max_times > 0) avail = std::min<int64_t>(avail, (int64_t)ITEMS * max_times);
  vs_cfg.preempt = PREEMPT;
  vs_cfg.delays = DELAYS;
  // 0: half-close after the requests; 1: later; 2: receives late; 3: the
  // connection breaks at a write; 4: the client cancels.
  int mode[STREAMS];
  bool broken = false;
  for (int s = 0; s < STREAMS; s++) {
    mode[s] = choose(MODES, "client");
    if (mode[s] == 0) streams[s].half_closed = true;
    if (mode[s] == 2) streams[s].stalled = true;
    if (mode[s] == 3) streams[s].fail_write = choose(3, "broken write");
    if (mode[s] >= 3) broken = true;
  }
  int64_t start = vs_now();
  for (int s = 0; s < STREAMS; s++) {
#if ASYNC
    streams[s].start(service->SampleStream(&streams[s].ctx));
#else
    streams[s].start([](Stream* st) { return service->SampleStreamInternal(&st->ctx, st); });
#endif
  }
  for (int s = 0; s < STREAMS; s++)
    if (mode[s] == 4) { vs_yield(); streams[s].cancel(); }
  vs_run_others();
  for (int s = 0; s < STREAMS; s++) streams[s].stalled = false;
  vs_run_others();
  if (!broken && STREAMS == 1) {
    int64_t left = avail;
    Want w = expect(0, &left);
    Stream& st = streams[0];
    if (w.timeout != 0 && w.blocked) {
      VCHECK(!st.done, "a request that does not time out is waited for");
      VCHECK((int64_t)got[0].size() == w.samples, "samples are delivered as they become available");
    }
    if (w.blocked && w.timeout > 0) {
      vs_advance((w.timeout - 1) * kMs - (vs_now() - start));
      vs_run_others();
      VCHECK(!st.done || vs_now() - start >= w.timeout * kMs, "a deadline error does not come early");
      vs_advance(2 * kMs);
      vs_run_others();
      if (ASYNC) { vs_advance(w.timeout * kMs); vs_run_others(); }
    }
    if (w.blocked && w.timeout >= 0) {
      VCHECK(st.done, "a request that times out ends the stream");
      VCHECK(st.status.error_code() == grpc::StatusCode::DEADLINE_EXCEEDED, "with a deadline error");
      verif_reach("timed out");
    } else if (w.blocked) {
      int what = choose(ASYNC ? 3 : 2, "unblock");
      if (what == 0) {
        service->Close();
        vs_run_others();
        VCHECK(st.done && st.status.error_code() == grpc::StatusCode::CANCELLED, "closing the service cancels requests");
        verif_reach("closed");
      } else if (what == 1) {
        int64_t more = 0;
        add_item(ITEMS);
        vs_run_others();
        avail = ITEMS + 1 + surplus;
        if (max_times > 0) avail = std::min<int64_t>(avail, (int64_t)(ITEMS + 1) * max_times);
        left = avail;
        w = expect(0, &left);
        VCHECK((int64_t)got[0].size() == w.samples, "samples are delivered as they become available");
        verif_reach("more");
        if (w.blocked) { service->Close(); broken = true; }
        vs_run_others();
      } else {
        st.cancel();
        vs_run_others();
        VCHECK(st.done, "a cancelled stream ends");
        broken = true;
      }
    }
    st.half_closed = true;
    vs_run_others();
    VCHECK(st.done, "the stream ends when the client is done");
    VCHECK((int64_t)got[0].size() == w.samples, "as many samples as asked for and available");
    if (w.error) {
      VCHECK(st.status.error_code() == w.codes[0] || st.status.error_code() == w.codes[1], "an invalid request fails with the matching error");
      verif_reach("invalid");
    }
    if (!w.error && !w.blocked) {
      VCHECK(st.status.ok(), "a stream of valid requests succeeds");
      verif_reach("all delivered");
    }
  } else {
    for (int s = 0; s < STREAMS; s++) streams[s].half_closed = true;
    vs_run_others();
    bool open = false;
    for (int s = 0; s < STREAMS; s++) if (!streams[s].done) open = true;
    if (open) {
      int64_t want = 0;
      for (int s = 0; s < STREAMS; s++) for (auto& r : streams[s].script) want += r.num_samples();
      if (!broken) VCHECK(want > avail && (int64_t)tlog->s.size() == avail, "a stream waits only for the table");
      service->Close();
      vs_run_others();
    }
  }
  for (int s = 0; s < STREAMS; s++) {
    VCHECK(streams[s].done, "every stream ends");
    streams[s].join();
  }
  compare(broken);
  verif_reach("checked");
  got[0].clear();
  service.reset();
}
