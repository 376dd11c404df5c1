// C21: insert streams of the service, with any requests, against a reference
// that says which items must be in which table, with which chunks, and what the
// client is told.
#include "grpc_driver.h"
#include "table_common.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/support/trajectory_util.h"
#if ASYNC
extern size_t FLAGS_reverb_callback_executor_num_threads;
#endif
using namespace deepmind::reverb;
using namespace tm;
namespace {
#if ASYNC
using Stream = AsyncCall<InsertStreamRequest, InsertStreamResponse>;
std::unique_ptr<ReverbServiceAsyncImpl> service;
#else
using Stream = SyncCall<InsertStreamRequest, InsertStreamResponse>;
std::unique_ptr<ReverbServiceImpl> service;
#endif
// Refuses negative priorities.
struct Strict : FifoSelector {
  absl::Status Insert(Key k, double p) override { return p < 0 ? absl::InvalidArgumentError("negative") : FifoSelector::Insert(k, p); }
};
// What happens to a table, with the chunks of inserted items.
struct Seen { char kind; uint64_t key; std::vector<uint64_t> chunks; double prio; };
struct Log : Ext {
  std::vector<Seen> seen;
  static std::vector<uint64_t> chunks(const ExtensionItem& i) {
    std::vector<uint64_t> r;
    for (auto& c : i.ref->chunks) {
      auto& d = c->data();
      VCHECK(d.data().tensors_size() == 1 && d.data().tensors(0).tensor_content() == absl::StrCat("data", d.chunk_key()), "a chunk is stored as it was sent");
      r.push_back(d.chunk_key());
    }
    return r;
  }
  void OnInsert(absl::Mutex*, const ExtensionItem& i) override { seen.push_back({'i', i.ref->item.key(), chunks(i), i.priority}); }
  void OnDelete(absl::Mutex*, const ExtensionItem& i) override { seen.push_back({'d', i.ref->item.key(), {}, 0}); }
  void OnUpdate(absl::Mutex*, const ExtensionItem& i) override { seen.push_back({'u', i.ref->item.key(), {}, i.priority}); }
};
enum Form { kNoItem, kNormal, kUnknownTable, kEmptyTrajectory, kBadPriority, kKeepMissing, kTwoColumns, kBareItem, kUpdate, kNothing };
struct Exp { char kind; int table; uint64_t key; std::vector<uint64_t> chunks; double prio; };
struct Model {
  std::vector<Exp> items;           // in order
  std::vector<uint64_t> confirmed;  // in order
  bool error = false;
  int optional = 0;  // 1: the last item may be missing, 2: the error may be
  std::vector<grpc::StatusCode> codes;
  int before_error = 0;  // messages that precede the failing one
};
const char* kNames[] = {"a", "b", "c"};
std::shared_ptr<Log> logs[2];
std::shared_ptr<Table> tables[2];
Stream streams[STREAMS];
Model model[STREAMS];

void add_chunk(InsertStreamRequest* r, uint64_t k) {
  auto* c = r->add_chunks();
  c->set_chunk_key(k);
  c->mutable_sequence_range()->set_episode_id(1);
  c->mutable_data()->add_tensors()->set_tensor_content(absl::StrCat("data", k));
}
void build(int s) {
  Model& m = model[s];
  uint64_t base = 100 * (s + 1);
  bool held[4] = {};
  int forms[10], nf = 0;
  for (int i = 0; i < 10; i++) if (FORMS >> i & 1) forms[nf++] = i;
  uint64_t last_key = 0;
  int last_table = 0;
  for (int n = 0; n < NREQ; n++) {
    InsertStreamRequest r;
    if (m.error) {
      // Nothing may happen any more.
      add_chunk(&r, base + 1);
      auto* it = r.mutable_item();
      it->mutable_item()->set_key(base + 50 + n);
      it->mutable_item()->set_table("a");
      auto* sl = it->mutable_item()->mutable_flat_trajectory()->add_columns()->add_chunk_slices();
      sl->set_chunk_key(base + 1);
      sl->set_length(1);
      it->set_send_confirmation(true);
      streams[s].script.push_back(r);
      continue;
    }
    int form = forms[nf == 1 ? 0 : choose(nf, "form")];
    int mask = form == kNothing ? 0 : SIMPLE ? 1 : n == 0 ? 1 + 2 * flip("chunks") : choose(4, "chunks");
    for (int k = 0; k < 2; k++)
      if (mask >> k & 1) { add_chunk(&r, base + 1 + k); held[k] = true; }
    if (RESEND && mask && flip("chunk twice")) add_chunk(&r, base + (mask & 1 ? 1 : 2));
    if (form == kNothing) {
      // May be ignored or refused.
      streams[s].script.push_back(r);
      m.before_error = n;
      m.optional = 2;
      if (NREQ > n + 1) verif_reach("empty request before others");
      for (int k = n + 1; k < NREQ; k++) streams[s].script.push_back(InsertStreamRequest());
      break;
    }
    if (form == kNoItem) {
      streams[s].script.push_back(r);
      continue;
    }
    auto* it = r.mutable_item();
    if (form == kBareItem) {
      streams[s].script.push_back(r);
      m.error = true;
      m.codes = {grpc::StatusCode::NOT_FOUND, grpc::StatusCode::INVALID_ARGUMENT};
      m.before_error = n;
      continue;
    }
    auto* p = it->mutable_item();
    bool update = form == kUpdate && last_key;
    uint64_t key = update ? last_key : base + 50 + n;
    int table = update ? last_table : form == kUnknownTable ? 2 : TABLES == 1 ? 0 : choose(2, "table");
    double prio = form == kBadPriority ? -1.0 : 1.0 + n;
    p->set_key(key);
    p->set_table(kNames[table]);
    p->set_priority(prio);
    static const std::vector<int> kRefs[] = {{0}, {1}, {0, 1}, {1, 0}, {0, 0}, {2}};
    auto& refs = kRefs[choose(REFS, "refs")];
    std::vector<uint64_t> want;
    bool missing = false;
    if (form != kEmptyTrajectory) {
      auto* col = p->mutable_flat_trajectory()->add_columns();
      for (int x : refs) {
        if (form == kTwoColumns && x != refs[0]) col = p->mutable_flat_trajectory()->add_columns();
        auto* sl = col->add_chunk_slices();
        sl->set_chunk_key(base + 1 + x);
        sl->set_length(1);
        if (!held[x]) missing = true;
        if (std::find(want.begin(), want.end(), base + 1 + x) == want.end()) want.push_back(base + 1 + x);
      }
    }
    bool confirm = CONFIRM == 1 || flip("confirm");
    it->set_send_confirmation(confirm);
    // Which to keep: any chunks that are held, one of them perhaps named twice.
    int keep = choose(KEEPS, "keep");
    bool bad_keep = form == kKeepMissing;
    for (int k = 0; k < 2; k++) {
      if (!(keep >> k & 1)) continue;
      if (!held[k]) bad_keep = true;
      it->add_keep_chunk_keys(base + 1 + k);
      if (keep == 4 + (1 << k)) it->add_keep_chunk_keys(base + 1 + k);
    }
    if (form == kKeepMissing) it->add_keep_chunk_keys(base + 9);
    streams[s].script.push_back(r);
    if (missing || form == kUnknownTable || form == kEmptyTrajectory || (form == kBadPriority && !ASYNC)) {
      m.error = true;
      m.before_error = n;
      if (missing) m.codes.push_back(grpc::StatusCode::INTERNAL);
      if (form == kUnknownTable) m.codes.push_back(grpc::StatusCode::NOT_FOUND);
      if (form == kEmptyTrajectory || form == kBadPriority) m.codes.push_back(grpc::StatusCode::INVALID_ARGUMENT);
      // Whatever else is wrong with it may be found first.
      if (bad_keep) { m.codes.push_back(grpc::StatusCode::INTERNAL); m.codes.push_back(grpc::StatusCode::INVALID_ARGUMENT); }
      continue;
    }
    if (form != kBadPriority) m.items.push_back({update ? 'u' : 'i', table, key, want, prio});
    if (confirm) m.confirmed.push_back(key);
    if (form != kBadPriority) {
      last_key = key;
      last_table = table;
    }
    if (bad_keep) {
      m.error = true;
      m.optional = 1;
      m.before_error = n;
      m.codes = {grpc::StatusCode::INTERNAL, grpc::StatusCode::INVALID_ARGUMENT};
      continue;
    }
    for (int k = 0; k < 2; k++) held[k] = held[k] && (keep >> k & 1);
  }
  streams[s].on_message = [s](const InsertStreamResponse& r) {
    for (uint64_t k : r.keys()) {
      bool in = false;
      for (auto& l : logs) for (auto& e : l->seen) if (e.key == k && e.kind != 'd') in = true;
      if (ASYNC && !in) {
        if (flip("look at the table")) verif_known("c21_async_confirm_before_insert");
        continue;
      }
      VCHECK(in, "an item is confirmed once it is in the table");
    }
  };
}
std::vector<uint64_t> confirmations(Stream& s) {
  std::vector<uint64_t> r;
  for (auto& m : s.out) for (uint64_t k : m.keys()) r.push_back(k);
  return r;
}
// The items of stream s that have arrived, compared with the first n expected.
int arrived(int s) {
  uint64_t base = 100 * (s + 1);
  int n = 0;
  size_t at[2] = {};
  for (auto& e : model[s].items) {
    auto& seen = logs[e.table]->seen;
    size_t& i = at[e.table];
    while (i < seen.size() && (seen[i].key / 100 != base / 100 || seen[i].kind == 'd')) i++;
    if (i == seen.size()) break;
    VCHECK(seen[i].kind == e.kind && seen[i].key == e.key && seen[i].prio == e.prio, "items arrive in the table they name, in order");
    if (e.kind == 'i') VCHECK(seen[i].chunks == e.chunks, "an item is stored with the chunks it refers to");
    i++;
    n++;
  }
  for (int t = 0; t < 2; t++) {
    for (size_t i = at[t]; i < logs[t]->seen.size(); i++)
      VCHECK(logs[t]->seen[i].key / 100 != base / 100 || logs[t]->seen[i].kind == 'd', "nothing else is stored");
  }
  return n;
}
bool is_prefix(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}
void check(int s, bool broken) {
  Stream& st = streams[s];
  Model& m = model[s];
  int n = arrived(s);
  auto c = confirmations(st);
  VCHECK(is_prefix(c, m.confirmed), "the items confirmed are those for which it was requested, each once and in order");
  if (broken) return;
  if (m.optional == 1 && n + 1 == (int)m.items.size()) {
    VCHECK(!st.status.ok(), "an item is missing only from a stream that failed");
  } else {
    VCHECK(n == (int)m.items.size(), "every item is stored");
    VCHECK(c.size() + (m.optional == 1) >= m.confirmed.size(), "every item is confirmed if requested");
  }
  if (m.optional == 2) { verif_reach("an empty request"); return; }
  VCHECK(st.status.ok() == !m.error, "the stream fails if and only if a request is malformed");
  if (m.error) {
    bool ok = false;
    for (auto x : m.codes) if (x == st.status.error_code()) ok = true;
    VCHECK(ok, "a malformed request fails the stream with the matching error");
    verif_reach("malformed");
  } else {
    verif_reach("all stored");
  }
}
}  // namespace
extern "C" void verif_main() {
  vs_cfg.idle_is_bug = true;
  for (int i = 0; i < 2; i++) {
    logs[i] = std::make_shared<Log>();
    tables[i] = std::make_shared<Table>(kNames[i], std::make_shared<Strict>(), make_selector(kFifo), SIZE, 0,
                                        std::make_shared<RateLimiter>(1.0, 1, -1000.0, i == 0 && LIMIT ? (double)LIMIT : 1000.0),
                                        std::vector<std::shared_ptr<TableExtension>>{logs[i]});
  }
#if ASYNC
  FLAGS_reverb_callback_executor_num_threads = 1;
  VCHECK(ReverbServiceAsyncImpl::Create({tables[0], tables[1]}, &service).ok(), "a service is created");
#else
  VCHECK(ReverbServiceImpl::Create({tables[0], tables[1]}, &service).ok(), "a service is created");
#endif
  for (int s = 0; s < STREAMS; s++) build(s);
  vs_run_others();
  vs_cfg.preempt = PREEMPT;
  vs_cfg.delays = DELAYS;
  // 0: the client half-closes after its messages; 1: it waits for the outcome
  // first; 2: the connection breaks at a write; 3: the client cancels.
  int mode[STREAMS];
  bool broken[STREAMS];
  for (int s = 0; s < STREAMS; s++) {
    mode[s] = choose(MODES, "client");
    broken[s] = mode[s] >= 2;
    if (mode[s] == 0) streams[s].half_closed = true;
    if (mode[s] == 2) streams[s].fail_write = choose(2, "broken write");
  }
  for (int s = 0; s < STREAMS; s++) {
#if ASYNC
    streams[s].start(service->InsertStream(&streams[s].ctx));
#else
    streams[s].start([](Stream* st) { return service->InsertStreamInternal(&st->ctx, st); });
#endif
  }
  for (int s = 0; s < STREAMS; s++)
    if (mode[s] == 3) { vs_yield(); streams[s].cancel(); }
  vs_run_others();
  if (LIMIT) {
    // Items may be waiting for room in table a.
    int64_t room = LIMIT;
    bool waiting = false;
    for (int s = 0; s < STREAMS; s++) if (!streams[s].done || (ASYNC && !broken[s] && arrived(s) + (model[s].optional == 1) < (int)model[s].items.size())) waiting = true;
    if (waiting) {
      int what = choose(3, "unblock");
      if (what == 0) {
        while (tables[0]->size() > 0) {
          size_t n = logs[0]->seen.size();
          std::vector<Table::SampledItem> out;
          if (!tables[0]->SampleFlexibleBatch(&out, 1, absl::ZeroDuration()).ok()) break;
          vs_run_others();
          if (n == logs[0]->seen.size()) break;
          verif_reach("made room");
        }
      } else if (what == 1) {
        for (int s = 0; s < STREAMS; s++) { broken[s] = true; streams[s].cancel(); }
        if (ASYNC) {
          vs_run_others();
          for (int s = 0; s < STREAMS; s++) VCHECK(streams[s].done, "a cancelled stream ends though a table is full");
          verif_reach("cancelled while waiting");
        }
        service->Close();
      } else {
        for (int s = 0; s < STREAMS; s++) broken[s] = true;
        service->Close();
        verif_reach("closed");
      }
      vs_run_others();
    }
  }
  for (int s = 0; s < STREAMS; s++) {
    if (mode[s] == 1) {
      if (model[s].error && !streams[s].done && !ASYNC && !broken[s]) {
        if (flip("no half-close")) verif_known("c21_error_waits_for_client");
        continue;
      }
      VCHECK(!model[s].error || streams[s].done || broken[s], "the client is told that the stream failed");
    }
  }
  for (int s = 0; s < STREAMS; s++) streams[s].half_closed = true;
  vs_run_others();
  for (int s = 0; s < STREAMS; s++) {
    VCHECK(streams[s].done, "the stream ends when the client is done");
    streams[s].join();
    check(s, broken[s]);
  }
  verif_reach("checked");
  service.reset();
}
