// What gRPC and a client do to a bidirectional stream of the service: a
// scripted client, and for callback reactors the library's side of the calls.
#ifndef VERIF_HARNESS_GRPC_DRIVER_H_
#define VERIF_HARNESS_GRPC_DRIVER_H_
#include <functional>
#include <thread>
#include <vector>
#include "common.h"

// State shared by both kinds of service.
template <class Req, class Resp>
struct Call {
  std::vector<Req> script;    // what the client sends
  size_t next = 0;            // first message not yet received by the service
  size_t sent = 1 << 20;      // messages the client has sent so far
  bool half_closed = false;   // the client has nothing more to send
  bool cancelled = false;     // by the client, or the connection is gone
  int fail_write = -1;        // the connection breaks at this write
  bool stalled = false;       // the client does not receive for now
  std::vector<Resp> out;      // what the client received
  std::function<void(const Resp&)> on_message;
  bool done = false;          // the client has the status
  grpc::Status status;
  size_t available() const { return std::min(sent, script.size()); }
  bool can_read() const { return next < available() || half_closed || cancelled; }
};

// A synchronous handler runs in a thread of its own.
template <class Req, class Resp>
struct SyncCall : Call<Req, Resp>, grpc::ServerReaderWriterInterface<Resp, Req> {
  grpc::ServerContext ctx;
  std::thread th;
  bool Read(Req* m) override {
    vs_wait(nullptr, [](const void* p) { return ((const SyncCall*)p)->can_read() || ((const SyncCall*)p)->done; }, this, kVsInf);
    VCHECK(!this->done, "the handler's threads end before it returns");
    if (this->cancelled || this->next >= this->available()) return false;
    *m = this->script[this->next++];
    return true;
  }
  bool Write(const Resp& m, grpc::WriteOptions) override {
    vs_yield();
    vs_wait(nullptr, [](const void* p) { return !((const SyncCall*)p)->stalled || ((const SyncCall*)p)->cancelled; }, this, kVsInf);
    if ((int)this->out.size() == this->fail_write) this->cancelled = true;
    if (this->cancelled) { ctx.v_cancelled = true; return false; }
    this->out.push_back(m);
    if (this->on_message) this->on_message(this->out.back());
    return true;
  }
  void start(std::function<grpc::Status(SyncCall*)> f) {
    th = std::thread([this, f] {
      auto s = f(this);
      this->status = s;
      this->done = true;
    });
  }
  void cancel() { this->cancelled = true; ctx.v_cancelled = true; }
  void join() { th.join(); }
};

// gRPC completes each operation of a reactor with a call from some thread; the
// completions of a read, a write and a cancellation may overlap.
template <class Req, class Resp>
struct AsyncCall : Call<Req, Resp> {
  grpc::CallbackServerContext ctx;
  grpc::ServerBidiReactor<Req, Resp>* r = nullptr;
  int running = 0;
  bool cancel_told = false;
  std::thread reader, writer, closer, canceller;
  bool read_ready() const { return this->done || (r->v_read && (this->can_read() || r->v_finished)); }
  bool write_ready() const { return this->done || (r->v_write && (!this->stalled || this->cancelled)); }
  bool over() const { return r->v_finished && !r->v_read && !r->v_write && !running && (!this->cancelled || cancel_told); }
  void wait(VsPred p) { vs_wait(nullptr, p, this, kVsInf); }
  void start(grpc::ServerBidiReactor<Req, Resp>* reactor) {
    r = reactor;
    reader = std::thread([this] {
      for (;;) {
        wait([](const void* p) { return ((const AsyncCall*)p)->read_ready(); });
        if (this->done) return;
        Req* m = r->v_read;
        r->v_read = nullptr;
        running++;
        bool ok = !r->v_finished && !this->cancelled && this->next < this->available();
        if (ok) *m = this->script[this->next++];
        r->OnReadDone(ok);
        running--;
      }
    });
    writer = std::thread([this] {
      for (;;) {
        wait([](const void* p) { return ((const AsyncCall*)p)->write_ready(); });
        if (this->done) return;
        r->v_write = nullptr;
        running++;
        if ((int)this->out.size() == this->fail_write) this->cancelled = true;
        bool ok = !this->cancelled;
        if (ok) {
          this->out.push_back(r->v_out);
          if (this->on_message) this->on_message(this->out.back());
        }
        r->OnWriteDone(ok);
        running--;
      }
    });
    canceller = std::thread([this] {
      wait([](const void* p) { return ((const AsyncCall*)p)->done || ((const AsyncCall*)p)->cancelled; });
      if (this->done) return;
      r->OnCancel();
      cancel_told = true;
    });
    closer = std::thread([this] {
      wait([](const void* p) { return ((const AsyncCall*)p)->over(); });
      this->status = r->v_status;
      this->done = true;
      auto* x = r;
      r = nullptr;
      x->OnDone();
    });
  }
  void cancel() { this->cancelled = true; }
  void join() { reader.join(); writer.join(); canceller.join(); closer.join(); }
};
#endif
