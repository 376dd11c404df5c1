// A server end for insert streams, as the writers see it: it stores chunks per
// stream, resolves items against them, confirms, and may break the stream.
#ifndef VERIF_HARNESS_MOCK_INSERT_H_
#define VERIF_HARNESS_MOCK_INSERT_H_
#include <deque>
#include <memory>
#include <set>
#include <vector>
#include "common.h"
#include "reverb/cc/reverb_service.grpc.pb.h"
#include "reverb/cc/reverb_service.pb.h"
namespace mock {
using namespace deepmind::reverb;
struct Sent {
  PrioritizedItem item;
  int stream;
  bool confirm;
  bool failed = false;  // the write was reported as failed, nevertheless
};
struct Server {
  absl::Mutex mu;
  std::vector<Sent> items;                       // in order of arrival
  std::vector<std::unique_ptr<ChunkData>> data;  // every chunk ever received
  std::set<uint64_t> confirmed;                  // items whose confirmation was read
  int streams = 0, open_streams = 0, writes = 0, chunk_messages = 0;
  int breaks = 0;          // streams that may still break
  int permanent = 0;       // of these, with an error that is not transient
  int refuse = 0;          // opened streams that may fail at once
  bool confirm = true;     // send confirmations
  bool lose_confirmations = false;
  bool hold = false;       // withhold confirmations
  bool track_kept = true;
  bool rolled_back = false;  // a step was taken back after a failed write
  bool broke = false, broke_permanently = false;
  const ChunkData* find(uint64_t key) {
    for (auto& d : data)
      if (d->chunk_key() == key) return d.get();
    return nullptr;
  }
};
class InsertEnd : public grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse> {
 public:
  InsertEnd(Server* s, grpc::ClientContext* c) : s_(s), c_(c) {
    absl::MutexLock l(&s_->mu);
    id_ = s_->streams++;
    s_->open_streams++;
    VCHECK(s_->open_streams == 1, "one stream is open at a time");
    c->on_cancel = [this] {
      absl::MutexLock l(&s_->mu);
      if (!ended_) status_ = grpc::Status(grpc::StatusCode::CANCELLED, "cancelled");
      ended_ = true;
    };
    if (s_->refuse > 0 && flip("refused")) {
      s_->refuse--;
      Break();
    }
  }
  ~InsertEnd() {
    absl::MutexLock l(&s_->mu);
    s_->open_streams--;
    c_->on_cancel = nullptr;
  }
  bool Write(const InsertStreamRequest& r, grpc::WriteOptions o) override {
    absl::MutexLock l(&s_->mu);
    VCHECK(!finished_, "no write after the stream was finished");
    VCHECK(!writes_done_, "no write after WritesDone");
    s_->writes++;
    if (ended_) return false;
    bool fail = s_->breaks > 0 && flip("stream breaks");
    if (fail) {
      s_->breaks--;
      // The message may or may not have reached the server.
      bool lost = flip("message lost");
      bool delivered = !lost;
      if (delivered) Receive(r);
      if (flip("confirmations lost")) pending_.clear();
      Break();
      bool ok = delivered && flip("write succeeds");
      if (delivered && !ok && r.has_item()) s_->items.back().failed = true;
      return ok;
    }
    Receive(r);
    return true;
  }
  bool Read(InsertStreamResponse* r) override {
    absl::MutexLock l(&s_->mu);
    auto cond = [this] { return (!pending_.empty() && !s_->hold) || ended_ || (writes_done_ && pending_.empty()); };
    s_->mu.Await(absl::Condition(&cond));
    if (pending_.empty() || (ended_ && s_->hold)) return false;
    r->Clear();
    while (!pending_.empty()) {
      r->add_keys(pending_.front());
      s_->confirmed.insert(pending_.front());
      pending_.pop_front();
      if (!batch_) break;
    }
    return true;
  }
  bool WritesDone() override {
    absl::MutexLock l(&s_->mu);
    writes_done_ = true;
    return !ended_;
  }
  grpc::Status Finish() override {
    absl::MutexLock l(&s_->mu);
    VCHECK(!finished_, "a stream is finished once");
    finished_ = true;
    auto cond = [this] { return ended_ || writes_done_; };
    s_->mu.Await(absl::Condition(&cond));
    return status_;
  }

 private:
  void Break() {
    s_->broke = true;
    if (!ended_) {
      if (s_->permanent > 0 && flip("permanent")) {
        s_->permanent--;
        s_->broke_permanently = true;
        status_ = grpc::Status(grpc::StatusCode::INVALID_ARGUMENT, "bad");
      } else {
        status_ = grpc::Status(grpc::StatusCode::UNAVAILABLE, "gone");
      }
    }
    ended_ = true;
  }
  void Receive(const InsertStreamRequest& r) {
    for (const ChunkData& c : r.chunks()) {
      s_->chunk_messages++;
      const ChunkData* old = s_->find(c.chunk_key());
      if (old) {
        VCHECK(s_->rolled_back || old->SerializeAsString() == c.SerializeAsString(), "a chunk sent again is the same");
      } else {
        s_->data.push_back(std::make_unique<ChunkData>(c));
      }
      if (!Has(c.chunk_key())) kept_.push_back(c.chunk_key());
    }
    if (!r.has_item()) return;
    for (const auto& col : r.item().item().flat_trajectory().columns())
      for (const auto& sl : col.chunk_slices())
        VCHECK(Has(sl.chunk_key()), "an item is sent after every chunk it refers to");
    std::vector<uint64_t> keep;
    for (uint64_t k : r.item().keep_chunk_keys()) {
      VCHECK(Has(k), "only chunks the stream holds are to be kept");
      keep.push_back(k);
    }
    if (s_->track_kept) kept_ = keep;
    s_->items.push_back({r.item().item(), id_, r.item().send_confirmation(), false});
    if (r.item().send_confirmation() && s_->confirm) pending_.push_back(r.item().item().key());
  }
  bool Has(uint64_t k) {
    for (uint64_t x : kept_)
      if (x == k) return true;
    return false;
  }
  Server* s_;
  grpc::ClientContext* c_;
  int id_;
  bool ended_ = false, finished_ = false, writes_done_ = false, batch_ = false;
  grpc::Status status_;
  std::deque<uint64_t> pending_;
  std::vector<uint64_t> kept_;
};
class Stub : public ReverbService::StubInterface {
 public:
  explicit Stub(Server* s) : s_(s) {}
  grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse>* InsertStreamRaw(grpc::ClientContext* c) override {
    return new InsertEnd(s_, c);
  }
#define V_NO(M) \
  grpc::Status M(grpc::ClientContext*, const M##Request&, M##Response*) override { verif_fail(#M " is not called"); }
  V_NO(Checkpoint)
  V_NO(MutatePriorities)
  V_NO(Reset)
  grpc::Status ServerInfo(grpc::ClientContext* c, const ServerInfoRequest& q, ServerInfoResponse* r) override { return Info(c, r); }
  grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* SampleStreamRaw(grpc::ClientContext* c) override { return Sample(c); }
  grpc::ClientReaderWriterInterface<InitializeConnectionRequest, InitializeConnectionResponse>* InitializeConnectionRaw(grpc::ClientContext*) override {
    return nullptr;
  }
  virtual grpc::Status Info(grpc::ClientContext*, ServerInfoResponse*) { verif_fail("ServerInfo is not called"); }
  virtual grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* Sample(grpc::ClientContext*) { verif_fail("SampleStream is not called"); }
  Server* s_;
};
}  // namespace mock
#endif
