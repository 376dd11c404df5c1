// Models of the gRPC classes the sources use.  Harnesses implement the stream
// interfaces; reactors record the operations the service starts and check that
// it follows gRPC's rules (one read and one write outstanding, one Finish,
// nothing started after Finish).
#ifndef VERIF_SHIM_GRPC_H_
#define VERIF_SHIM_GRPC_H_
#include "vshim/absl.h"
#include "vshim/log.h"
#include "vshim/pb.h"
struct grpc_call;
#define GRPC_ARG_MAX_RECONNECT_BACKOFF_MS "grpc.max_reconnect_backoff_ms"
#define GRPC_ARG_MIN_RECONNECT_BACKOFF_MS "grpc.min_reconnect_backoff_ms"
#define GRPC_ARG_INITIAL_RECONNECT_BACKOFF_MS "grpc.initial_reconnect_backoff_ms"
#define GRPC_ARG_KEEPALIVE_TIME_MS "grpc.keepalive_time_ms"
#define GRPC_ARG_KEEPALIVE_TIMEOUT_MS "grpc.keepalive_timeout_ms"
#define GRPC_ARG_USE_LOCAL_SUBCHANNEL_POOL "grpc.use_local_subchannel_pool"
namespace grpc {
enum StatusCode {
  OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5,
  ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9,
  ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14,
  DATA_LOSS = 15, UNAUTHENTICATED = 16, DO_NOT_USE = -1
};
class Status {
 public:
  Status() : c_(StatusCode::OK) {}
  Status(StatusCode c, const std::string& m) : c_(c), m_(m) {}
  Status(StatusCode c, const std::string& m, const std::string&) : c_(c), m_(m) {}
  bool ok() const { return c_ == StatusCode::OK; }
  StatusCode error_code() const { return c_; }
  std::string error_message() const { return m_; }
  std::string error_details() const { return ""; }
  void IgnoreError() const {}
  static const Status OK;
  static const Status CANCELLED;
 private:
  StatusCode c_;
  std::string m_;
};
inline const Status Status::OK;
inline const Status Status::CANCELLED(StatusCode::CANCELLED, "");
class WriteOptions {
 public:
  WriteOptions& set_no_compression() { nc_ = true; return *this; }
  WriteOptions& clear_no_compression() { nc_ = false; return *this; }
  WriteOptions& set_buffer_hint() { return *this; }
  WriteOptions& set_corked() { return *this; }
  WriteOptions& set_last_message() { return *this; }
  WriteOptions& set_write_through() { return *this; }
  bool get_no_compression() const { return nc_; }
 private:
  bool nc_ = false;
};
class Channel;
class ChannelInterface { public: virtual ~ChannelInterface() {} };
class Channel : public ChannelInterface {};
class ChannelCredentials {};
class ServerCredentials {};
class ChannelArguments {
 public:
  void SetMaxReceiveMessageSize(int) {}
  void SetMaxSendMessageSize(int) {}
  void SetInt(const std::string&, int) {}
  void SetString(const std::string&, const std::string&) {}
  void SetCompressionAlgorithm(int) {}
  void SetLoadBalancingPolicyName(const std::string&) {}
  void SetUserAgentPrefix(const std::string&) {}
  void SetMaxReconnectBackoff(int) {}
};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<Channel> CreateCustomChannel(const std::string&, const std::shared_ptr<ChannelCredentials>&, const ChannelArguments&) { return std::make_shared<Channel>(); }
inline std::shared_ptr<Channel> CreateChannel(const std::string&, const std::shared_ptr<ChannelCredentials>&) { return std::make_shared<Channel>(); }
class CompletionQueue {};
template <class B> class ClientAsyncResponseReaderInterface {};
template <class A, class B> class ClientAsyncReaderWriterInterface {};

struct VClientCtx {
  bool cancelled = false;
  bool has_deadline = false;
  int64_t deadline = 0;
};
class ClientContext {
 public:
  ClientContext() {}
  ClientContext(const ClientContext&) = delete;
  virtual ~ClientContext() {}
  void set_wait_for_ready(bool b) { wait_ready = b; }
  void set_fail_fast(bool b) { wait_ready = !b; }
  void set_deadline(std::chrono::system_clock::time_point t) {
    v.has_deadline = t != std::chrono::system_clock::time_point::max();
    v.deadline = t.time_since_epoch().count();
  }
  void TryCancel() { v.cancelled = true; if (on_cancel) on_cancel(); }
  void AddMetadata(const std::string&, const std::string&) {}
  std::string peer() const { return "peer"; }
  VClientCtx v;
  bool wait_ready = false;
  std::function<void()> on_cancel;
};
struct VServerCtxBase {
  std::string v_peer = "unknown";
  bool v_cancelled = false;
  std::string peer() const { return v_peer; }
  bool IsCancelled() const { return v_cancelled; }
  void TryCancel() { v_cancelled = true; }
  template <class T> void set_compression_level(T) {}
  template <class T> void set_compression_algorithm(T) {}
};
class ServerContext : public VServerCtxBase {};
class ServerUnaryReactor {
 public:
  virtual ~ServerUnaryReactor() {}
  void Finish(Status s) {
    verif_assert_(v_finishes == 0, "unary reactor finished once");
    v_finishes++;
    v_status = s;
  }
  virtual void OnDone() {}
  virtual void OnCancel() {}
  int v_finishes = 0;
  Status v_status;
};
class CallbackServerContext : public VServerCtxBase {
 public:
  ServerUnaryReactor* DefaultReactor() { return &v_default; }
  ServerUnaryReactor v_default;
};
template <class Req, class Resp>
class ServerBidiReactor {
 public:
  virtual ~ServerBidiReactor() {}
  void StartRead(Req* r) {
    verif_assert_(!v_finished, "no StartRead after Finish");
    verif_assert_(!v_read, "at most one outstanding read");
    v_read = r;
    v_reads_started++;
  }
  void StartWrite(const Resp* r) { StartWrite(r, WriteOptions()); }
  void StartWrite(const Resp* r, WriteOptions) {
    verif_assert_(!v_finished, "no StartWrite after Finish");
    verif_assert_(!v_write, "at most one outstanding write");
    v_write = r;
    v_out = *r;  // gRPC serialises the message before it returns
    v_writes_started++;
  }
  void StartWriteAndFinish(const Resp* r, WriteOptions o, Status s) { StartWrite(r, o); Finish(s); }
  void StartSendInitialMetadata() {}
  void Finish(Status s) {
    verif_assert_(!v_finished, "Finish called once");
    v_finished = true;
    v_status = s;
  }
  virtual void OnSendInitialMetadataDone(bool) {}
  virtual void OnReadDone(bool) {}
  virtual void OnWriteDone(bool) {}
  virtual void OnDone() = 0;
  virtual void OnCancel() {}
  Req* v_read = nullptr;
  const Resp* v_write = nullptr;
  Resp v_out;
  int v_reads_started = 0;
  int v_writes_started = 0;
  bool v_finished = false;
  Status v_status;
};
template <class W> class WriterInterface_ {
 public:
  virtual ~WriterInterface_() {}
  virtual bool Write(const W& m, WriteOptions o) = 0;
  bool Write(const W& m) { return Write(m, WriteOptions()); }
};
template <class R> class ReaderInterface_ {
 public:
  virtual ~ReaderInterface_() {}
  virtual bool NextMessageSize(uint32_t* n) { *n = 0; return true; }
  virtual bool Read(R* m) = 0;
};
template <class W, class R>
class ClientReaderWriterInterface : public WriterInterface_<W>, public ReaderInterface_<R> {
 public:
  using WriterInterface_<W>::Write;
  virtual void WaitForInitialMetadata() {}
  virtual bool WritesDone() = 0;
  virtual Status Finish() = 0;
};
template <class W, class R>
class ServerReaderWriterInterface : public WriterInterface_<W>, public ReaderInterface_<R> {
 public:
  using WriterInterface_<W>::Write;
  virtual void SendInitialMetadata() {}
};
template <class W, class R>
class ServerReaderWriter final : public ServerReaderWriterInterface<W, R> {
 public:
  explicit ServerReaderWriter(ServerReaderWriterInterface<W, R>* i) : i_(i) {}
  bool Write(const W& m, WriteOptions o) override { return i_->Write(m, o); }
  bool Write(const W& m) { return i_->Write(m, WriteOptions()); }
  bool Read(R* m) override { return i_->Read(m); }
 private:
  ServerReaderWriterInterface<W, R>* i_;
};
class Service { public: virtual ~Service() {} };
class Server {
 public:
  virtual ~Server() {}
  template <class T> void Shutdown(const T&) {}
  void Shutdown() {}
  void Wait() {}
  std::shared_ptr<Channel> InProcessChannel(const ChannelArguments&) { return std::make_shared<Channel>(); }
};
class ServerBuilder {
 public:
  ServerBuilder& AddListeningPort(const std::string&, std::shared_ptr<ServerCredentials>, int* = nullptr) { return *this; }
  ServerBuilder& RegisterService(Service*) { return *this; }
  ServerBuilder& SetMaxSendMessageSize(int) { return *this; }
  ServerBuilder& SetMaxReceiveMessageSize(int) { return *this; }
  std::unique_ptr<Server> BuildAndStart() { return std::make_unique<Server>(); }
};
}  // namespace grpc
namespace grpc_impl { using namespace grpc; }
#endif
