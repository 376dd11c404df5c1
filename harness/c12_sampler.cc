// C12: samplers: what they deliver, for every script of the server.
#include <thread>
#include "mock_insert.h"
#include "reverb/cc/errors.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/support/grpc_util.h"
#include "reverb/cc/table.h"
#include "reverb/cc/tensor_compression.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
struct Truth {
  uint64_t key;
  double prob, prio;
  int64_t size;
  bool limited;
  std::vector<std::vector<int32_t>> cols;
  std::vector<bool> squeeze;
  int stream;
  bool delivered = false;
  int64_t at = 0;
  bool steps() const {
    for (auto& c : cols) if (c.size() != cols[0].size()) return false;
    return true;
  }
};
int next_value = 100;
int32_t value() {
#if SYMBOLIC
  return (int32_t)verif_sym(32, "element");
#else
  return next_value++;
#endif
}
// A chunk of `n` rows in `k` columns.
ChunkData chunk(uint64_t key, const std::vector<std::vector<int32_t>>& cols) {
  ChunkData d;
  d.set_chunk_key(key);
  d.mutable_sequence_range()->set_episode_id(1);
  d.mutable_sequence_range()->set_start(0);
  d.mutable_sequence_range()->set_end(cols[0].size() - 1);
  d.set_data_tensors_len(cols.size());
  for (auto& c : cols) {
    tf::Tensor t(tf::DT_INT32, tf::TensorShape({(int64_t)c.size()}));
    for (size_t i = 0; i < c.size(); i++) t.flat<int32_t>()(i) = c[i];
    CompressTensorAsProto(t, d.mutable_data()->add_tensors());
  }
  return d;
}
uint64_t chunk_keys = 1000;
// Makes up an item over fresh chunks.
Truth make(uint64_t key, PrioritizedItem* item, std::vector<ChunkData>* chunks) {
  Truth x;
  x.key = key;
  x.stream = -1;
#if SYMBOLIC
  x.prio = verif::range(-4, 4, "priority") * 0.5;
  x.prob = verif::range(0, 8, "probability") * 0.125;
  x.size = verif::range(1, 1 << 20, "size");
  x.limited = verif::b("limited");
#else
  x.prio = (double)key;
  x.prob = 1.0 / (double)(1 + key);
  x.size = 10 + (int64_t)key;
  x.limited = key % 2;
#endif
  item->set_key(key);
  item->set_table("t");
  item->set_priority(x.prio);
  int cols = 1 + (COLS > 1 ? choose(COLS, "columns") : 0);
  for (int c = 0; c < cols; c++) {
    auto* col = item->mutable_flat_trajectory()->add_columns();
    x.cols.emplace_back();
    int n = 1 + (CHUNKS > 1 ? choose(CHUNKS, "chunks") : 0);
    for (int k = 0; k < n; k++) {
      auto* sl = col->add_chunk_slices();
      // The other column of a chunk that another column uses, or a new one.
      int at = -1, index = 0;
      if (c > 0 && (SHARE && flip("shared chunk"))) at = 0, index = 1;
      if (at < 0) {
        int rows = ROWS;
        std::vector<std::vector<int32_t>> data(1 + SHARE);
        for (auto& d : data) for (int i = 0; i < rows; i++) d.push_back(value());
        chunks->push_back(chunk(++chunk_keys, data));
        at = (int)chunks->size() - 1;
      }
      tf::Tensor t = DecompressTensorFromProto((*chunks)[at].data().tensors(index));
      int rows = (int)t.dim_size(0);
      int off = rows > 1 && CUT ? choose(rows, "offset") : 0, len = rows - off > 1 && CUT ? 1 + choose(rows - off, "length") : rows - off;
      sl->set_chunk_key((*chunks)[at].chunk_key());
      sl->set_offset(off);
      sl->set_length(len);
      sl->set_index(index);
      for (int i = 0; i < len; i++) x.cols[c].push_back(t.flat<int32_t>()(off + i));
    }
    bool sq = x.cols[c].size() == 1 && (SHARE && flip("squeeze"));
    col->set_squeeze(sq);
    x.squeeze.push_back(sq);
  }
  return x;
}
absl::Mutex mu;
std::vector<Truth> sent;  // every complete sample, in the order it left the server
int64_t max_samples;
int in_flight, workers, per_stream;
bool timed_out = false, failed = false, closed = false, hold = false;
int breaks = BREAKS, streams = 0, open_streams = 0;
int hold_after = -1;

class End : public grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse> {
 public:
  explicit End(grpc::ClientContext* c) : stop_(std::make_shared<bool>(c->v.cancelled)) {
    absl::MutexLock l(&mu);
    id_ = streams++;
    VCHECK(++open_streams <= workers, "one stream per worker");
    auto stop = stop_;
    c->on_cancel = [stop] { absl::MutexLock l(&mu); *stop = true; };
  }
  ~End() {
    absl::MutexLock l(&mu);
    open_streams--;
  }
  bool Write(const SampleStreamRequest& r, grpc::WriteOptions) override {
    absl::MutexLock l(&mu);
    VCHECK(!finished_, "no write after the stream was finished");
    VCHECK(outstanding_ == 0, "the samples of a request are read before the next request");
    VCHECK(r.table() == "t", "the table is named");
    VCHECK(r.num_samples() >= 1 && r.num_samples() <= in_flight, "the samples in flight are limited");
    VCHECK(r.flexible_batch_size() == FLEX, "the batch size is passed on");
    VCHECK(r.rate_limiter_timeout().milliseconds() == (TIMEOUT < 0 ? -1 : TIMEOUT), "the timeout is passed on");
    requested_ += r.num_samples();
    VCHECK(requested_ <= per_stream, "the samples of a stream are limited");
    Stop();
    if (ended_) return false;
    if (breaks > 0 && flip("stream breaks")) {
      Break();
      return false;
    }
    outstanding_ = r.num_samples();
    return true;
  }
  bool Read(SampleStreamResponse* r) override {
    absl::MutexLock l(&mu);
    VCHECK(outstanding_ > 0, "nothing is read that was not asked for");
    if (hold_after >= 0) {
      auto cond = [this] { return (int)sent.size() < hold_after || ended_ || *stop_; };
      mu.Await(absl::Condition(&cond));
    }
    Stop();
    if (ended_) return false;
    if (breaks > 0 && flip("stream breaks")) {
      Break();
      return false;
    }
    r->Clear();
    do {
      if (parts_.empty()) {
        PrioritizedItem item;
        std::vector<ChunkData> chunks;
        truth_ = make(sent.size() + 1 + 100 * id_, &item, &chunks);
        truth_.stream = id_;
        SampleStreamResponse::SampleEntry e;
        *e.mutable_info()->mutable_item() = item;
        e.mutable_info()->set_probability(truth_.prob);
        e.mutable_info()->set_table_size(truth_.size);
        e.mutable_info()->set_rate_limited(truth_.limited);
        bool split = SPLIT && flip("entries split");
        for (size_t i = 0; i < chunks.size(); i++) {
          if (i > 0 && split) {
            parts_.push_back(e);
            e.Clear();
          }
          *e.add_data() = chunks[i];
        }
        if (chunks.size() == 1 && split) {
          parts_.push_back(e);
          e.Clear();
        }
        e.set_end_of_sequence(true);
        parts_.push_back(e);
      }
      bool end = parts_.front().end_of_sequence();
      *r->add_entries() = parts_.front();
      parts_.erase(parts_.begin());
      if (end) {
        sent.push_back(truth_);
        outstanding_--;
      }
    } while (outstanding_ > 0 && (hold_after < 0 || (int)sent.size() < hold_after) && SPLIT && flip("more entries"));
    return true;
  }
  bool WritesDone() override { return true; }
  grpc::Status Finish() override {
    absl::MutexLock l(&mu);
    VCHECK(!finished_, "a stream is finished once");
    VCHECK(ended_, "finishing a stream that goes on would block");
    finished_ = true;
    return status_;
  }
 private:
  void Stop() {
    if (*stop_ && !ended_) {
      ended_ = true;
      status_ = grpc::Status(grpc::StatusCode::CANCELLED, "cancelled");
    }
  }
  void Break() {
    breaks--;
    ended_ = true;
    switch (choose(3, "how")) {
      case 0: status_ = grpc::Status(grpc::StatusCode::UNAVAILABLE, "gone"); break;
      case 1: failed = true; status_ = grpc::Status(grpc::StatusCode::INTERNAL, "bad"); break;
      case 2: timed_out = true; status_ = ToGrpcStatus(errors::RateLimiterTimeout()); break;
    }
  }
  std::shared_ptr<bool> stop_;  // outlives the stream, with the context
  int id_;
  bool ended_ = false, finished_ = false;
  int64_t outstanding_ = 0, requested_ = 0;
  grpc::Status status_;
  std::vector<SampleStreamResponse::SampleEntry> parts_;
  Truth truth_;
};
class SampleStub : public mock::Stub {
 public:
  SampleStub() : mock::Stub(nullptr) {}
  grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* Sample(grpc::ClientContext* c) override { return new End(c); }
};
template <class T> bool is(const tf::Tensor& t, T v, int64_t n) {
  if (t.dtype() != tf::DataTypeToEnum<T>::value) return false;
  if (n < 0) return t.dims() == 0 && t.scalar<T>()() == v;
  if (t.dims() != 1 || t.dim_size(0) != n) return false;
  bool ok = true;
  for (int64_t i = 0; i < n; i++) ok = ok & (t.flat<T>()(i) == v);
  return ok;
}
void check_info(const std::vector<tf::Tensor>& d, const Truth& x, int64_t n) {
  VCHECK(d.size() == 4 + x.cols.size(), "a sample has its information and every column");
  VCHECK(is<tf::uint64>(d[0], x.key, n), "the key is that of the item");
  VCHECK(is<double>(d[1], x.prob, n), "the probability is that of the sample");
  VCHECK(is<tf::int64>(d[2], x.size, n), "the size is that of the table");
  VCHECK(is<double>(d[3], x.prio, n), "the priority is that of the item");
}
int delivered = 0;
// The sample that should come next with this key.
Truth& take(uint64_t key) {
  absl::MutexLock l(&mu);
  for (size_t i = 0; i < sent.size(); i++) {
    Truth& x = sent[i];
    if (x.key != key) {
      // Samples of one stream come in order.
      continue;
    }
    VCHECK(!x.delivered, "a sample is delivered once");
    x.delivered = true;
    for (size_t j = 0; j < i; j++) VCHECK(sent[j].delivered || (sent[j].stream != x.stream && workers > 1), "samples come in order and none is skipped");
    delivered++;
    VCHECK(delivered <= max_samples, "no more than the maximum is delivered");
    return x;
  }
  verif_fail("only samples of the server are delivered");
}
std::unique_ptr<Sampler> s;
// Gets one whole sample; false at the end.
absl::Status next() {
  std::vector<tf::Tensor> d;
  bool limited = false;
  int mode = MODES > 1 ? choose(MODES, "mode") : 0;
  if (mode == 0) {
    absl::Status st = s->GetNextTrajectory(&d, &limited);
    if (!st.ok()) return st;
    Truth& x = take(verif_concrete(d[0].scalar<tf::uint64>()()));
    check_info(d, x, -1);
    VCHECK(limited == x.limited, "rate limiting is reported");
    for (size_t c = 0; c < x.cols.size(); c++) {
      const tf::Tensor& t = d[4 + c];
      VCHECK(t.dtype() == tf::DT_INT32 && t.dims() == (x.squeeze[c] ? 0 : 1) && t.NumElements() == (int64_t)x.cols[c].size(), "a column has its shape");
      bool ok = true;
      for (size_t i = 0; i < x.cols[c].size(); i++) ok = ok & (t.flat<int32_t>()(i) == x.cols[c][i]);
      VCHECK(ok, "a column has its data");
    }
    verif_reach("trajectory");
    return st;
  }
  if (mode == 1) {
    absl::Status st = s->GetNextSample(&d, &limited);
    if (absl::IsFailedPrecondition(st)) {
      // The sample is not made of steps; it is gone.
      absl::MutexLock l(&mu);
      VCHECK(workers == 1, "no multi-column samples with several workers");
      for (auto& x : sent)
        if (!x.delivered) {
          VCHECK(!x.steps(), "a sample made of steps is returned");
          x.delivered = true;
          max_samples = 0;
          return st;
        }
      verif_fail("a refused sample was sent");
    }
    if (!st.ok()) return st;
    Truth& x = take(verif_concrete(d[0].flat<tf::uint64>()(0)));
    VCHECK(x.steps(), "only steps are batched");
    int64_t n = x.cols[0].size();
    check_info(d, x, n);
    VCHECK(limited == x.limited, "rate limiting is reported");
    for (size_t c = 0; c < x.cols.size(); c++) {
      const tf::Tensor& t = d[4 + c];
      VCHECK(t.dtype() == tf::DT_INT32 && t.dims() == 1 && t.dim_size(0) == n, "a column has its shape");
      bool ok = true;
      for (int64_t i = 0; i < n; i++) ok = ok & (t.flat<int32_t>()(i) == x.cols[c][i]);
      VCHECK(ok, "a column has its data");
    }
    verif_reach("batched");
    return st;
  }
  bool end = false;
  Truth* x = nullptr;
  for (int64_t i = 0; !end; i++) {
    absl::Status st = s->GetNextTimestep(&d, &end, &limited);
    if (absl::IsInvalidArgument(st)) {
      absl::MutexLock l(&mu);
      VCHECK(x == nullptr, "the steps of a sample come to its end");
      for (auto& y : sent)
        if (!y.delivered) {
          VCHECK(!y.steps(), "a sample made of steps is returned");
          max_samples = 0;
          return st;
        }
      verif_fail("a refused sample was sent");
    }
    if (!st.ok()) {
      VCHECK(x == nullptr, "the steps of a sample come to its end");
      return st;
    }
    if (!x) x = &take(verif_concrete(d[0].scalar<tf::uint64>()()));
    VCHECK(x->steps() && i < (int64_t)x->cols[0].size(), "a sample has as many steps as its columns");
    check_info(d, *x, -1);
    VCHECK(limited == x->limited, "rate limiting is reported");
    for (size_t c = 0; c < x->cols.size(); c++)
      VCHECK(d[4 + c].dtype() == tf::DT_INT32 && d[4 + c].dims() == 0 && d[4 + c].scalar<int32_t>()() == x->cols[c][i], "a step has its data");
    VCHECK(end == (i + 1 == (int64_t)x->cols[0].size()), "the last step is marked");
  }
  verif_reach("steps");
  return absl::OkStatus();
}
Sampler::Options options() {
  Sampler::Options o;
  o.max_samples = max_samples;
  o.max_in_flight_samples_per_worker = in_flight;
  o.num_workers = workers;
  o.max_samples_per_stream = per_stream;
  o.rate_limiter_timeout = TIMEOUT < 0 ? absl::InfiniteDuration() : absl::Milliseconds(TIMEOUT);
  o.flexible_batch_size = FLEX;
  VCHECK(o.Validate().ok(), "the options are valid");
  return o;
}
void consume() {
  absl::Status st;
  while ((st = next()).ok()) {}
  if (max_samples == 0) return;  // refused as not made of steps
  absl::MutexLock l(&mu);
  if (absl::IsOutOfRange(st)) {
    VCHECK(delivered == max_samples && (int64_t)sent.size() == max_samples, "the end is reported after the maximum");
    verif_reach("all delivered");
  } else if (absl::IsDeadlineExceeded(st)) {
    VCHECK(timed_out && errors::IsRateLimiterTimeout(st), "a timeout is reported only when there was one");
    verif_reach("timed out");
  } else if (absl::IsCancelled(st)) {
    VCHECK(closed, "cancellation is reported only after closing");
    verif_reach("cancelled");
  } else {
    VCHECK(failed && absl::IsInternal(st), "an error is reported only when there was one");
    verif_reach("failed");
  }
}
}  // namespace
#if PART == 0
extern "C" void verif_main() {
  vs_cfg.preempt = PREEMPT;
  workers = 1 + (WORKERS > 1 ? choose(WORKERS, "workers") : 0);
  max_samples = MAX - (MAX > 1 ? choose(2, "fewer") : 0);
  in_flight = 1 + choose(INFLIGHT, "in flight");
  per_stream = 1 + choose(PERSTREAM, "per stream");
#if CLOSE
  hold_after = choose((int)max_samples + 1, "hold after");
#endif
  s = std::make_unique<Sampler>(std::make_shared<SampleStub>(), "t", options());
#if CLOSE
  std::thread closer([] {
    { absl::MutexLock l(&mu); closed = true; }
    s->Close();
  });
  consume();
  closer.join();
#else
  consume();
#endif
  if (max_samples > 0) {
    std::vector<tf::Tensor> d;
    bool end;
    absl::Status st = s->GetNextTrajectory(&d);
    VCHECK(!st.ok() && !s->GetNextTimestep(&d, &end).ok() && !s->GetNextSample(&d).ok(), "nothing comes after the end");
  }
  s->Close();
  s->Close();
  s = nullptr;
  absl::MutexLock l(&mu);
  VCHECK(open_streams == 0, "no stream is left open");
  verif_reach("done");
}
#elif PART == 1
// A local table.
extern "C" void verif_main() {
  vs_cfg.preempt = PREEMPT;
  vs_cfg.timeouts = TIMERS;
  v_rng.mode = 2;
  workers = 1 + (WORKERS > 1 ? choose(WORKERS, "workers") : 0);
  max_samples = MAX - (MAX > 1 ? choose(2, "fewer") : 0);
  in_flight = 1 + choose(INFLIGHT, "in flight");
  per_stream = 1 + choose(PERSTREAM, "per stream");
  auto t = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 100, 1,
                                   std::make_shared<RateLimiter>(1.0, 1, -1000.0, 1000.0));
  int before = choose(MAX + 1, "inserted before"), after = ITEMS - before;
  int64_t inserted = 0;
  auto insert = [&](int i) {
    TableItem it;
    std::vector<ChunkData> chunks;
    Truth x = make(i + 1, &it.item, &chunks);
    for (auto& c : chunks) it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(c));
    x.prob = 1.0;
    x.at = vs_now();
    x.stream = workers > 1 ? i : 0;
    {
      absl::MutexLock l(&mu);
      sent.push_back(x);
    }
    VCHECK(t->InsertOrAssign(it, absl::InfiniteDuration()).ok(), "an insertion is accepted");
    inserted++;
  };
  for (int i = 0; i < before; i++) insert(i);
  int64_t start = vs_now();
  s = std::make_unique<Sampler>(t, options());
  std::thread other([&] {
    for (int i = before; i < ITEMS; i++) insert(i);
    if (CLOSE) {
      int how = choose(2, "close");
      { absl::MutexLock l(&mu); closed = true; }
      if (how == 0) s->Close(); else t->Close();
    }
  });
  absl::Status st;
  while (true) {
    std::vector<tf::Tensor> d;
    bool limited;
    st = s->GetNextTrajectory(&d, &limited);
    if (!st.ok()) {
      if (absl::IsDeadlineExceeded(st)) VCHECK(TIMEOUT >= 0 && vs_now() - start >= (int64_t)TIMEOUT * 1000000, "a timeout is reported after that time only");
      break;
    }
    Truth& x = take(verif_concrete(d[0].scalar<tf::uint64>()()));
    VCHECK(is<double>(d[1], 1.0, -1) && is<double>(d[3], x.prio, -1) && d[2].scalar<tf::int64>()() >= 1, "a sample has its information");
    VCHECK(d.size() == 5 && d[4].dims() == 1 && d[4].NumElements() == (int64_t)x.cols[0].size(), "a column has its shape");
    for (size_t i = 0; i < x.cols[0].size(); i++) VCHECK(d[4].flat<int32_t>()(i) == x.cols[0][i], "a column has its data");
    start = x.at;  // the worker waits since this sample was there, or later
  }
  {
    absl::MutexLock l(&mu);
    if (absl::IsOutOfRange(st)) {
      VCHECK(delivered == max_samples, "the end is reported after the maximum");
      verif_reach("all delivered");
    } else if (absl::IsDeadlineExceeded(st)) {
      VCHECK(errors::IsRateLimiterTimeout(st), "a timeout is that of the rate limiter");
      verif_reach("timed out");
    } else {
      VCHECK(closed && absl::IsCancelled(st), "cancellation is reported only after closing");
      verif_reach("cancelled");
    }
  }
  other.join();
  VCHECK(inserted - t->size() <= max_samples, "no more than the maximum is sampled");
  s = nullptr;
  verif_reach("done");
}
#endif
