// C13: the step writer: what reaches the server.
#include <thread>
#include "mock_insert.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/writer.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
struct Want { std::string table; double prio; int first, n; };
mock::Server server;
std::vector<int32_t> rows;  // the first column; the second one follows from it
std::vector<Want> wants;
std::unique_ptr<Writer> w;
int cols, chunk_length, max_timesteps, in_flight;
bool short_chunks = false, failed = false;
tf::Tensor cell(int col, int32_t v) {
  tf::Tensor t(col ? tf::DT_INT64 : tf::DT_INT32, col ? tf::TensorShape({2}) : tf::TensorShape({}));
  if (col) {
    t.flat<tf::int64>()(0) = v;
    t.flat<tf::int64>()(1) = -1;
  } else {
    t.flat<int32_t>()(0) = v;
  }
  return t;
}
bool equal(const tf::Tensor& e, int col, int32_t v) {
  if (e.dtype() != (col ? tf::DT_INT64 : tf::DT_INT32) || e.dims() != (col ? 1 : 0)) return false;
  if (!col) return e.flat<int32_t>()(0) == v;
  auto f = e.flat<tf::int64>();
  return (f(0) == v) & (f(1) == -1);
}
void check_items(bool all, bool resent) {
  absl::MutexLock l(&server.mu);
  std::vector<const mock::Sent*> seen;
  uint64_t episode = 0;
  size_t n = 0;
  for (auto& s : server.items) {
    bool old = false;
    for (auto*& o : seen) {
      if (o->item.key() != s.item.key()) continue;
      VCHECK(resent && o->failed, "an item is sent again only if sending it failed");
      o = &s;
      old = true;
    }
    if (old) {
      continue;
    }
    VCHECK(n < wants.size(), "no other items are sent");
    seen.push_back(&s);
    auto& x = wants[n++];
    VCHECK(s.item.table() == x.table && s.item.priority() == x.prio, "items are sent in order with their table and priority");
    VCHECK(s.confirm == (in_flight > 0), "confirmation is asked for exactly when it is awaited");
    auto& tr = s.item.flat_trajectory();
    VCHECK(tr.columns_size() == cols, "an item has every column");
    for (int c = 0; c < cols; c++) {
      VCHECK(!tr.columns(c).squeeze(), "columns are not squeezed");
      int at = 0;
      for (auto& sl : tr.columns(c).chunk_slices()) {
        const ChunkData* d = server.find(sl.chunk_key());
        VCHECK(d != nullptr && sl.index() == c && d->data().tensors_size() == cols && d->data_tensors_len() == cols, "a slice names a column of a chunk");
        tf::Tensor t;
        VCHECK(internal::UnpackChunkColumn(*d, c, &t).ok(), "a chunk can be unpacked");
        VCHECK(sl.length() > 0 && sl.offset() >= 0 && sl.offset() + sl.length() <= t.dim_size(0), "a slice lies within its chunk");
        auto& sr = d->sequence_range();
        if (!episode) episode = sr.episode_id();
        VCHECK(sr.episode_id() == episode && !sr.sparse() && sr.end() - sr.start() + 1 == t.dim_size(0) && t.dim_size(0) <= chunk_length, "the range of a chunk spans its steps");
        for (int i = 0; i < sl.length(); i++) {
          VCHECK(at < x.n && sr.start() + sl.offset() + i == x.first + at, "an item has exactly the last steps at its creation");
          tf::Tensor e = t.SubSlice(sl.offset() + i);
          if (!e.IsAligned()) e = tf::tensor::DeepCopy(e);
          VCHECK(equal(e, c, rows[x.first + at]), "an item has exactly the appended data");
          at++;
        }
      }
      VCHECK(at == x.n, "an item has exactly the last steps at its creation");
    }
  }
  if (all) VCHECK(n == wants.size(), "every item is sent");
}
// The outcome of a call that may send: true if it succeeded.
bool sent(const absl::Status& s) {
  if (s.ok()) return true;
  VCHECK(server.broke_permanently || (server.broke && in_flight > 0 && (absl::IsDataLoss(s) || absl::IsInternal(s))), "sending fails only after a permanent error, or when confirmations were lost");
  failed = server.rolled_back = true;
  verif_reach("failed");
  return false;
}
void append(int n) {
  std::vector<int32_t> v;
  for (int i = 0; i < n; i++)
#if SYMBOLIC
    v.push_back((int32_t)verif_sym(32, "element"));
#else
    v.push_back(100 + (int)rows.size() + i);
#endif
  absl::Status s;
  if (n == 1) {
    std::vector<tf::Tensor> data;
    for (int c = 0; c < cols; c++) data.push_back(cell(c, v[0]));
    s = w->Append(data);
  } else {
    std::vector<tf::Tensor> data;
    for (int c = 0; c < cols; c++) {
      std::vector<tf::Tensor> parts;
      for (int i = 0; i < n; i++) {
        tf::Tensor e = cell(c, v[i]);
        tf::TensorShape sh = e.shape();
        sh.InsertDim(0, 1);
        tf::Tensor b(e.dtype(), sh);
        VCHECK(b.CopyFrom(e, sh), "copying");
        parts.push_back(b);
      }
      data.emplace_back();
      VCHECK(tf::tensor::Concat(parts, &data.back()).ok(), "concatenating");
    }
    s = w->AppendSequence(data);
  }
  if (sent(s)) rows.insert(rows.end(), v.begin(), v.end());
}
void create() {
  int n = choose(max_timesteps + 2, "num_timesteps");
  double prio = SYMBOLIC ? (double)verif::range(-3, 3, "priority") : 1.0 + (double)wants.size();
  const char* table = wants.size() % 2 ? "b" : "a";
  bool never = n < 1 || n > max_timesteps || n > (int)rows.size();
  wants.push_back({table, prio, (int)rows.size() - n, n});
  absl::Status s = w->CreateItem(table, n, prio);
  if (never) {
    VCHECK(absl::IsInvalidArgument(s), "an item over steps that are not there is refused");
    wants.pop_back();
    verif_reach("refused");
    return;
  }
  if (s.ok()) return;
  sent(s);
}
void flush() {
  size_t before = 0;
  absl::Status s = w->Flush();
  short_chunks = true;
  if (!sent(s)) return;
  check_items(true, server.broke);
  if (in_flight > 0) {
    absl::MutexLock l(&server.mu);
    VCHECK(server.confirmed.size() == wants.size(), "flushing waits for confirmation");
  }
  verif_reach("flushed");
}
void op() {
  switch (choose(OPSET, "op")) {
    case 0: append(1); break;
    case 1: create(); break;
    case 2: flush(); break;
    case 3: append(2); break;
    case 4: {
      // Refused steps.
      if (rows.empty()) return;
      std::vector<tf::Tensor> data;
      int kind = choose(4, "wrong");
      if (kind == 0) VCHECK(absl::IsInvalidArgument(w->AppendSequence(data)), "an empty sequence is refused");
      if (kind == 1) VCHECK(absl::IsInvalidArgument(w->AppendSequence({cell(0, 1)})), "a sequence of scalars is refused");
      if (kind == 2) VCHECK(absl::IsInvalidArgument(w->AppendSequence({cell(1, 1), tf::Tensor(tf::DT_INT32, tf::TensorShape({3}))})), "a ragged sequence is refused");
      if (kind == 3) {
        // Noticed while the step is buffered with others.
        for (int c = 0; c < cols + 1; c++) data.push_back(cell(c, 1));
        if (rows.size() % chunk_length != 0 && !short_chunks) VCHECK(absl::IsInvalidArgument(w->Append(data)), "a step with another number of columns is refused");
      }
      break;
    }
  }
}
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 1;
  vs_cfg.preempt = PREEMPT;
  server.breaks = BREAKS;
  server.refuse = REFUSE;
  server.permanent = PERMANENT;
  cols = 1 + choose(COLS, "columns");
  max_timesteps = 1 + choose(3, "max_timesteps");
  chunk_length = 1 + choose(max_timesteps, "chunk_length");
  in_flight = choose(3, "max_in_flight");
  w = std::make_unique<Writer>(std::make_shared<mock::Stub>(&server), chunk_length, max_timesteps, SYMBOLIC && flip("delta"), nullptr,
                               in_flight ? absl::optional<int>(in_flight) : absl::nullopt);
  for (int i = 0; i < PREFILL; i++) append(1);
  if (!failed && CREATE) create();
  for (int i = 0; i < OPS && !failed; i++) op();
  if (failed) {
    check_items(false, true);
    w = nullptr;
    verif_reach("done");
    return;
  }
  bool retry = !flip("close without retrying");
  absl::Status s = w->Close(retry);
  if (!s.ok()) {
    VCHECK(server.broke_permanently || (server.broke && in_flight > 0), "closing fails only after the stream failed");
  } else {
    check_items(!server.broke_permanently && (retry || !server.broke), server.broke);
    VCHECK(absl::IsFailedPrecondition(w->Append({cell(0, 1)})) && absl::IsFailedPrecondition(w->CreateItem("a", 1, 1.0)) && absl::IsFailedPrecondition(w->Flush()) && absl::IsFailedPrecondition(w->Close()),
           "a closed writer accepts nothing");
    verif_reach("closed");
  }
  if (s.ok() && !server.broke && in_flight > 0) {
    absl::MutexLock l(&server.mu);
    VCHECK(server.confirmed.size() == wants.size(), "closing waits for confirmation");
  }
  w = nullptr;
  verif_reach("done");
}
