// C19: signatures: flattening, and what they accept.
#include <thread>
#include "mock_insert.h"
#include "reverb/cc/client.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/support/signature.h"
#include "reverb/cc/trajectory_writer.h"
#include "reverb/cc/writer.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
typedef internal::TensorSpec Spec;
tf::PartialTensorShape sym_shape(int maxdims, int64_t hi) {
  int k = choose(maxdims + 2, "rank");
  if (k == maxdims + 1) return tf::PartialTensorShape();
  tf::PartialTensorShape s(std::initializer_list<int64_t>{});
  for (int i = 0; i < k; i++) s.AddDim(verif::range(-1, hi, "dim"));
  return s;
}
// Whether a shape stands for the other one, dimension by dimension.
bool fits(const tf::PartialTensorShape& want, const std::vector<int64_t>& got) {
  if (want.unknown_rank()) return true;
  if (want.dims() != (int)got.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < got.size(); i++) ok = ok & ((want.dim_size(i) == -1) | (got[i] == -1) | (want.dim_size(i) == got[i]));
  return ok;
}
bool same_shape(const tf::PartialTensorShape& a, const tf::PartialTensorShape& b) {
  if (a.unknown_rank() != b.unknown_rank()) return false;
  if (a.unknown_rank()) return true;
  if (a.dims() != b.dims()) return false;
  bool ok = true;
  for (int i = 0; i < a.dims(); i++) ok = ok & (a.dim_size(i) == b.dim_size(i));
  return ok;
}

#if PART == 0
struct Leaf { std::string name; tf::DataType dt; tf::PartialTensorShape shape; };
bool bad;
std::string join(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "/" + b; }
const char* kNames[] = {"b", "a", "aa", "B"};
// Builds an arbitrary nested value next to the leaves it should flatten to.
std::vector<Leaf> build(tf::StructuredValue* v, const std::string& ctx, int depth) {
  std::vector<Leaf> out;
#ifdef SIMPLE
  int kind = depth > 0 ? choose(5, "kind") : 0;
  if (kind) kind += 3;
#else
  int kind = choose(depth > 0 ? 8 : 4, "kind");
#endif
  switch (kind) {
    case 0:
    case 1: {
      Leaf l;
      #ifdef SIMPLE
      std::string name = "x";
#else
      std::string name = flip("named") ? "x" : "";
#endif
      l.name = join(ctx, name);
      l.dt = (tf::DataType)verif::range(1, 23, "dtype");
#ifndef SIMPLE
      l.shape = sym_shape(MAXD, 1000);
#endif
      if (kind == 0) {
        auto* s = v->mutable_tensor_spec_value();
        s->set_name(name);
        s->set_dtype(l.dt);
        l.shape.AsProto(s->mutable_shape());
      } else {
        auto* s = v->mutable_bounded_tensor_spec_value();
        s->set_name(name);
        s->set_dtype(l.dt);
        l.shape.AsProto(s->mutable_shape());
      }
      out.push_back(l);
      break;
    }
    case 2:
      bad = true;
      v->set_int64_value(3);
      break;
    case 3:
      bad = true;
      if (flip("none")) v->mutable_none_value(); else v->set_string_value("s");
      break;
    case 4:
    case 5: {
      int n = choose(WIDTH + 1, "children");
      auto* vals = kind == 4 ? v->mutable_list_value()->mutable_values() : v->mutable_tuple_value()->mutable_values();
      if (kind == 4) v->mutable_list_value(); else v->mutable_tuple_value();
      for (int i = 0; i < n; i++) {
        auto x = build(vals->Add(), join(ctx, std::to_string(i)), depth - 1);
        out.insert(out.end(), x.begin(), x.end());
      }
      break;
    }
    case 6: {
      int n = choose(WIDTH + 1, "children");
      #ifdef SIMPLE
      int first = choose(2, "first key"), step = 1 + 2 * first;
#else
      int first = choose(4, "first key"), step = 1 + choose(3, "key step");
#endif
      std::vector<std::pair<std::string, std::vector<Leaf>>> kids;
      v->mutable_dict_value();
      for (int i = 0; i < n; i++) {
        std::string k = kNames[(first + i * step) % 4];
        bool dup = false;
        for (auto& x : kids) dup |= x.first == k;
        if (dup) break;
        auto x = build(&(*v->mutable_dict_value()->mutable_fields())[k], join(ctx, k), depth - 1);
        kids.push_back({k, x});
      }
      // Fields come out by name.
      std::vector<bool> used(kids.size());
      for (size_t i = 0; i < kids.size(); i++) {
        int best = -1;
        for (size_t j = 0; j < kids.size(); j++)
          if (!used[j] && (best < 0 || kids[j].first < kids[best].first)) best = j;
        used[best] = true;
        out.insert(out.end(), kids[best].second.begin(), kids[best].second.end());
      }
      break;
    }
    case 7: {
      int n = choose(WIDTH + 1, "children");
#ifdef SIMPLE
      int first = 1;
#else
      int first = choose(3, "first key");
#endif
      v->mutable_named_tuple_value()->set_name("T");
      for (int i = 0; i < n; i++) {
        auto* p = v->mutable_named_tuple_value()->add_values();
        p->set_key(kNames[first + i]);
        auto x = build(p->mutable_value(), join(ctx, kNames[first + i]), depth - 1);
        out.insert(out.end(), x.begin(), x.end());
      }
      break;
    }
  }
  return out;
}
void flatten() {
  TableInfo info;
  info.set_name("t");
  internal::DtypesAndShapes got;
  if (flip("stale")) got.emplace(1, Spec{"old", tf::DT_BOOL, {}});
  if (flip("no signature")) {
    VCHECK(internal::FlatSignatureFromTableInfo(info, &got).ok() && !got.has_value(), "no signature accepts everything");
    return;
  }
  std::vector<Leaf> want = build(info.mutable_signature(), "", DEPTH);
  absl::Status s = internal::FlatSignatureFromTableInfo(info, &got);
  VCHECK(s.ok() == !bad, "a signature is flattened exactly when all its leaves are specs");
  if (bad) {
    VCHECK(absl::IsInvalidArgument(s), "an unsupported signature is an invalid argument");
    verif_reach("unsupported");
    return;
  }
  VCHECK(got.has_value() && got->size() == want.size(), "every leaf is listed once");
  for (size_t i = 0; i < want.size(); i++) {
    VCHECK((*got)[i].name == want[i].name, "leaves are listed in order with their paths");
    VCHECK((*got)[i].dtype == want[i].dt, "leaves have their types");
    VCHECK(same_shape((*got)[i].shape, want[i].shape), "leaves have their shapes");
  }
  verif_reach("flattened");
}
#endif

tf::DataType kTypes[] = {tf::DT_INT32, tf::DT_FLOAT, tf::DT_INT64};
tf::Tensor tensor(tf::DataType dt, std::vector<int64_t> dims) {
  tf::TensorShape sh;
  for (int64_t d : dims) sh.AddDim(d);
  return tf::Tensor(dt, sh);
}
#ifndef NSHAPES
#define NSHAPES 2
#endif
std::vector<int64_t> pick_dims() {
  switch (choose(NSHAPES, "data shape")) {
    case 0: return {2};
    case 1: return {};
    case 2: return {2, 3};
    default: return {3};
  }
}
Spec sym_spec() { return Spec{"s", (tf::DataType)verif::range(1, 23, "dtype"), sym_shape(MAXD, 1000)}; }
struct Col { tf::DataType dt; std::vector<int64_t> dims; };
// What a signature accepts: the number of columns, and each type and shape.
bool accepts(const std::vector<Spec>& sig, const std::vector<Col>& data) {
  if (sig.size() != data.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < sig.size(); i++) ok = ok & (sig[i].dtype == data[i].dt) & fits(sig[i].shape, data[i].dims);
  return ok;
}
std::vector<Col> pick_columns(int max) {
  int n = 1 + choose(max, "columns");
  std::vector<Col> c;
  for (int i = 0; i < n; i++) c.push_back({kTypes[choose(2, "type")], i == 0 ? pick_dims() : std::vector<int64_t>(choose(2, "other shape"), 2)});
  return c;
}

#if PART == 1
// Trajectory writer: an item is accepted exactly when its trajectory matches.
void trajectory() {
  mock::Server server;
  auto stub = std::make_shared<mock::Stub>(&server);
  std::vector<Spec> sig;
  int n = choose(3, "signature columns");
  for (int i = 0; i < n; i++) sig.push_back(sym_spec());
  internal::FlatSignatureMap map;
  map[std::string("t")] = sig;
  map[std::string("free")] = absl::nullopt;
  TrajectoryWriter::Options opts;
  opts.chunker_options = std::make_shared<ConstantChunkerOptions>(1, 4);
  bool checked = !flip("no signatures");
  if (checked) opts.flat_signature_map = map;
  TrajectoryWriter w(stub, opts);
  std::vector<Col> cols = pick_columns(2);
  int steps = 1 + choose(2, "steps");
  std::vector<std::vector<std::weak_ptr<CellRef>>> refs(cols.size());
  for (int t = 0; t < steps; t++) {
    std::vector<absl::optional<tf::Tensor>> row;
    for (auto& c : cols) row.push_back(tensor(c.dt, c.dims));
    std::vector<absl::optional<std::weak_ptr<CellRef>>> r;
    VCHECK(w.Append(row, &r).ok(), "append succeeds");
    for (size_t i = 0; i < cols.size(); i++) refs[i].push_back(*r[i]);
  }
  if (flip("mismatched row")) {
    // A further row of another type or shape is refused.
    bool type = flip("type");
    auto dims = cols[0].dims;
    if (!type) dims.push_back(2);
    std::vector<absl::optional<tf::Tensor>> row(cols.size());
    row[0] = tensor(type ? tf::DT_INT64 : cols[0].dt, dims);
    std::vector<absl::optional<std::weak_ptr<CellRef>>> r;
    VCHECK(absl::IsInvalidArgument(w.Append(row, &r)), "a row of another type or shape is refused");
    verif_reach("row refused");
  }
  std::vector<TrajectoryColumn> tr;
  std::vector<Col> got = cols;
  for (size_t i = 0; i < cols.size(); i++) {
    bool squeeze = flip("squeeze");
    std::vector<std::weak_ptr<CellRef>> rs = refs[i];
    if (squeeze) rs.resize(1); else got[i].dims.insert(got[i].dims.begin(), (int64_t)rs.size());
    tr.emplace_back(rs, squeeze);
  }
  int which = choose(3, "table");
  const char* table = which == 0 ? "t" : which == 1 ? "free" : "other";
  absl::Status s = w.CreateItem(table, 1.0, tr);
  bool want = !checked || which == 1 || (which == 0 && accepts(sig, got));
  VCHECK(s.ok() == want, "an item is accepted exactly when it matches the signature of its table");
  if (!want) { VCHECK(absl::IsInvalidArgument(s), "a mismatch is an invalid argument"); verif_reach("refused"); }
  VCHECK(w.Flush().ok(), "flush succeeds");
  VCHECK(server.items.size() == (want ? 1u : 0u), "only accepted items are sent");
  if (want) verif_reach("accepted");
}
#endif
#if PART == 2
// Step writer.
void steps() {
  mock::Server server;
  auto stub = std::make_shared<mock::Stub>(&server);
  std::vector<Spec> sig;
  int n = choose(3, "signature columns");
  for (int i = 0; i < n; i++) sig.push_back(sym_spec());
  auto map = std::make_shared<internal::FlatSignatureMap>();
  (*map)[std::string("t")] = sig;
  (*map)[std::string("free")] = absl::nullopt;
  bool checked = !flip("no signatures");
  Writer w(stub, 1, 2, false, checked ? map : nullptr, flip("confirmed") ? absl::optional<int>(2) : absl::nullopt);
  int steps = 1 + choose(3, "steps");
  std::vector<std::vector<Col>> rows;
  for (int t = 0; t < steps; t++) {
    std::vector<Col> row = t == 0 ? pick_columns(2) : rows[0];
    if (t == 1) {
      // Later rows may differ.
      if (flip("other row")) { row[0].dt = tf::DT_INT64; row.back().dims = {3}; }
    }
    std::vector<tf::Tensor> data;
    for (auto& c : row) data.push_back(tensor(c.dt, c.dims));
    VCHECK(w.Append(data).ok(), "append succeeds");
    rows.push_back(row);
  }
  int num = 1 + choose(steps < 2 ? steps : 2, "timesteps");
  int which = choose(3, "table");
  absl::Status s = w.CreateItem(which == 0 ? "t" : which == 1 ? "free" : "other", num, 1.0);
  bool all = true;
  for (int i = steps - num; i < steps; i++) all = all & accepts(sig, rows[i]);
  bool want = !checked || which == 1 || (which == 0 && all);
  VCHECK(s.ok() == want, "an item is accepted exactly when its steps match the signature of its table");
  if (!want) { VCHECK(absl::IsInvalidArgument(s), "a mismatch is an invalid argument"); verif_reach("refused"); }
  VCHECK(w.Flush().ok(), "flush succeeds");
  VCHECK(server.items.size() == (want ? 1u : 0u), "only accepted items are sent");
  if (want) verif_reach("accepted");
}
#endif
#if PART == 3
// Samplers: the requested types and shapes against the signature of the table,
// and received data against what was requested.
struct InfoStub : mock::Stub {
  using mock::Stub::Stub;
  ServerInfoResponse info;
  grpc::Status Info(grpc::ClientContext*, ServerInfoResponse* r) override { *r = info; return grpc::Status::OK; }
  struct Ended : grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse> {
    bool Write(const SampleStreamRequest&, grpc::WriteOptions) override { return false; }
    bool Read(SampleStreamResponse*) override { return false; }
    bool WritesDone() override { return false; }
    grpc::Status Finish() override { return grpc::Status(grpc::StatusCode::INTERNAL, "no"); }
  };
  grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* Sample(grpc::ClientContext*) override { return new Ended; }
  grpc::ClientReaderWriterInterface<InitializeConnectionRequest, InitializeConnectionResponse>* InitializeConnectionRaw(grpc::ClientContext*) override {
    struct Remote : grpc::ClientReaderWriterInterface<InitializeConnectionRequest, InitializeConnectionResponse> {
      bool Write(const InitializeConnectionRequest&, grpc::WriteOptions) override { return true; }
      bool Read(InitializeConnectionResponse* r) override { return true; }
      bool WritesDone() override { return true; }
      grpc::Status Finish() override { return grpc::Status::OK; }
    };
    return new Remote;
  }
};
bool both(const tf::PartialTensorShape& a, const tf::PartialTensorShape& b) {
  if (a.unknown_rank() || b.unknown_rank()) return true;
  std::vector<int64_t> d;
  for (int i = 0; i < b.dims(); i++) d.push_back(b.dim_size(i));
  return fits(a, d);
}
void samplers() {
  mock::Server server;
  auto stub = std::make_shared<InfoStub>(&server);
  auto* t = stub->info.add_table_info();
  t->set_name("t");
  bool has = !flip("no signature");
  int n = choose(3, "signature columns");
  std::vector<Spec> sig;
  if (has) {
    t->mutable_signature()->mutable_list_value();
    for (int i = 0; i < n; i++) {
      sig.push_back(sym_spec());
      auto* s = t->mutable_signature()->mutable_list_value()->add_values()->mutable_tensor_spec_value();
      s->set_dtype(sig[i].dtype);
      sig[i].shape.AsProto(s->mutable_shape());
    }
  }
  Client client(stub);
  Sampler::Options opts;
  opts.num_workers = 1;
  std::unique_ptr<Sampler> sampler;
  int m = choose(3, "requested columns");
  tf::DataTypeVector dts = {tf::DT_UINT64, tf::DT_DOUBLE, tf::DT_INT64, tf::DT_DOUBLE};
  std::vector<tf::PartialTensorShape> shapes(4, tf::PartialTensorShape(std::initializer_list<int64_t>{}));
  int odd = choose(6, "metadata");
  if (odd == 4) dts.pop_back(), shapes.pop_back();
  if (odd < 3) dts[odd] = tf::DT_FLOAT;
  for (int i = 0; i < m; i++) {
    Spec s = i == 0 ? sym_spec() : Spec{"", tf::DT_INT32, {}};
    dts.push_back(s.dtype);
    shapes.push_back(s.shape);
  }
  int total = (int)dts.size();
  bool uneven = flip("uneven");
  if (uneven) shapes.emplace_back();
  absl::Status s = client.NewSampler("t", opts, dts, shapes, absl::Seconds(1), &sampler);
  bool want = !uneven;
  if (has) {
    // The signature is preceded by the key, probability, table size, priority.
    std::vector<Spec> full;
    tf::PartialTensorShape scalar(std::initializer_list<int64_t>{});
    for (auto dt : {tf::DT_UINT64, tf::DT_DOUBLE, tf::DT_INT64, tf::DT_DOUBLE}) full.push_back(Spec{"", dt, scalar});
    full.insert(full.end(), sig.begin(), sig.end());
    if (total != (int)full.size()) want = false;
    if (want)
      for (int i = 0; i < total; i++) want = want & (dts[i] == full[i].dtype) & both(full[i].shape, shapes[i]);
  }
  VCHECK(s.ok() == want, "a sampler is created exactly when the request matches the signature of the table");
  if (!want) { VCHECK(absl::IsInvalidArgument(s) && !sampler, "a mismatch is an invalid argument"); verif_reach("refused"); return; }
  verif_reach("accepted");
  // Received data.
  int cols = choose(3, "received columns");
  std::vector<tf::Tensor> data;
  for (int i = 0; i < 4; i++) data.push_back(tensor(tf::DT_INT32, {2}));
  std::vector<Col> got;
  for (int i = 0; i < cols; i++) {
    Col c{kTypes[choose(2, "type")], pick_dims()};
    got.push_back(c);
    data.push_back(tensor(c.dt, c.dims));
  }
  auto mode = (Sampler::ValidationMode)choose(3, "mode");
  // The specification: the signature, or else what was asked for.
  std::vector<Spec> spec;
  if (has) spec = sig;
  else for (int i = 4; i < total; i++) spec.push_back(Spec{"", dts[i], shapes[i]});
  if (total < 4) return;
  if (mode == Sampler::ValidationMode::kBatchedTimestep) {
    bool scalar = false;
    for (auto& c : got) {
      if (c.dims.empty()) scalar = true; else c.dims.erase(c.dims.begin());
    }
    bool w2 = !scalar && accepts(spec, got);
    VCHECK(sampler->ValidateAgainstOutputSpec(data, mode).ok() == w2, "received data is accepted exactly when it matches");
  } else {
    VCHECK(sampler->ValidateAgainstOutputSpec(data, mode).ok() == accepts(spec, got), "received data is accepted exactly when it matches");
  }
  verif_reach("validated");
}
#endif
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 1;  // generated keys are distinct
#if PART == 0
  flatten();
#elif PART == 1
  trajectory();
#elif PART == 2
  steps();
#else
  samplers();
#endif
}
