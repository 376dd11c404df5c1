// C09: chunkers: every appended row ends up, once, at the place its reference
// names, in a chunk that describes exactly its rows.
#include <thread>
#include "common.h"
#include "reverb/cc/chunker.h"
#include "reverb/cc/support/trajectory_util.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
struct Row {
  int32_t v;
  uint64_t episode;
  int32_t step;
  int chunk;   // index of its chunk
  int offset;  // within the chunk
  bool active;
  std::weak_ptr<CellRef> ref;
  std::shared_ptr<CellRef> held;
};
struct ChunkModel {
  int length = 0;
  bool done = false, lost = false, delta = false;
  int limit = 0;
  uint64_t key = 0;
};
std::vector<Row> rows;
std::vector<ChunkModel> chunks;
int width = 0;  // number of elements of a row, 0: scalar
tf::Tensor row_tensor(int32_t v) {
  tf::Tensor t(tf::DT_INT32, width ? tf::TensorShape({width}) : tf::TensorShape({}));
  auto f = t.flat<int32_t>();
  for (int i = 0; i < f.size(); i++) f(i) = v + i;
  return t;
}
bool row_equal(const tf::Tensor& t, int32_t v) {
  if (t.dtype() != tf::DT_INT32 || t.dims() != (width ? 1 : 0) || (width && t.dim_size(0) != width)) return false;
  auto f = t.flat<int32_t>();
  bool ok = true;
  for (int i = 0; i < (width ? width : 1); i++) ok = ok & (f(i) == v + i);
  return ok;
}
std::shared_ptr<Chunker> chunker;
std::shared_ptr<ChunkerOptions> options;
int max_len, keep;
bool delta, tuned;
uint64_t episode = 1;
int pending() { return chunks.empty() || chunks.back().done || chunks.back().lost ? 0 : chunks.back().length; }
void done() {
  if (!pending()) return;
  chunks.back().done = true;
  chunks.back().delta = delta;
}
void expire() {
  int n = 0;
  for (int i = (int)rows.size() - 1; i >= 0; i--)
    if (rows[i].active && ++n > keep) rows[i].active = false;
}
void check_chunk(const ChunkData& c, int k) {
  std::vector<Row*> rs;
  for (auto& r : rows) if (r.chunk == k) rs.push_back(&r);
  VCHECK(c.chunk_key() == chunks[k].key, "a chunk has the key its references name");
  VCHECK(c.data().tensors_size() == 1 && c.data_tensors_len() == 1, "a chunk has one column");
  tf::Tensor t;
  VCHECK(internal::UnpackChunkColumn(c, 0, &t).ok(), "a chunk can be unpacked");
  VCHECK(t.dims() == (width ? 2 : 1) && t.dim_size(0) == (int64_t)rs.size(), "a chunk holds exactly its rows");
  for (size_t i = 0; i < rs.size(); i++) {
    tf::Tensor s = t.SubSlice(i);
    VCHECK(row_equal(s.IsAligned() ? s : tf::tensor::DeepCopy(s), rs[i]->v), "a chunk holds its rows in order");
  }
  auto& r = c.sequence_range();
  VCHECK(r.episode_id() == rs[0]->episode && r.start() == rs[0]->step && r.end() == rs.back()->step, "the range of a chunk spans its rows");
  bool dense = true;
  for (size_t i = 1; i < rs.size(); i++) dense = dense & (rs[i]->step == rs[i - 1]->step + 1);
  VCHECK(r.sparse() == !dense, "a chunk is sparse exactly when steps are missing");
  VCHECK(c.delta_encoded() == chunks[k].delta, "a chunk is marked delta encoded exactly when it is");
  VCHECK((int)rs.size() <= chunks[k].limit, "no chunk is longer than the configured maximum");
}
void check() {
  std::vector<uint64_t> want_keys;
  std::vector<int> seen;
  for (auto& r : rows) {
    auto sp = r.held ? r.held : r.ref.lock();
    VCHECK(r.held || r.active == (sp != nullptr), "exactly the configured number of newest references is kept alive");
    if (!sp) continue;
    auto& c = chunks[r.chunk];
    VCHECK(sp->chunk_key() == c.key && sp->offset() == r.offset, "a reference names its chunk and offset");
    VCHECK(sp->episode_id() == r.episode && sp->episode_step() == r.step, "a reference names its episode and step");
    VCHECK(sp->IsReady() == c.done, "a reference is ready exactly when its chunk is finalized");
    tf::Tensor t;
    absl::Status s = sp->GetData(&t);
    VCHECK(s.ok() == !c.lost, "data of a reference can be read unless it was discarded");
    if (s.ok()) VCHECK(row_equal(t, r.v), "reading a reference returns the appended row");
    internal::TensorSpec spec;
    VCHECK(sp->GetSpec(&spec).ok() && spec.dtype == tf::DT_INT32, "a reference has the specification of its column");
    if (c.done) {
      auto got = sp->GetChunk();
      VCHECK(got != nullptr, "a ready reference has its chunk");
      bool dup = false;
      for (int k : seen) dup |= k == r.chunk;
      if (!dup) { seen.push_back(r.chunk); check_chunk(*got->get(), r.chunk); verif_reach("chunk"); }
    } else {
      VCHECK(sp->GetChunk() == nullptr, "an unfinished reference has no chunk");
    }
    if (r.active && (want_keys.empty() || want_keys.back() != c.key)) want_keys.push_back(c.key);
  }
  VCHECK(chunker->GetKeepKeys() == want_keys, "the keys to keep are those of the live references, in order");
  for (size_t i = 0; i < chunks.size(); i++)
    for (size_t j = 0; j < i; j++) VCHECK(chunks[i].key != chunks[j].key, "every chunk has its own key");
  int l = options->GetMaxChunkLength();
  VCHECK(l >= 1 && l <= keep && options->GetNumKeepAliveRefs() == keep, "the chunk length stays within its limits");
  VCHECK(options->GetDeltaEncode() == delta, "options keep whether to delta encode");
}
void append(int32_t step, uint64_t ep) {
  int32_t v = tuned ? (int32_t)rows.size() : (int32_t)verif_sym(32, "element");
  std::weak_ptr<CellRef> ref;
  bool bad_episode = pending() && rows.back().episode != ep;
  bool bad_step = pending() && rows.back().episode == ep && rows.back().step >= step;
  absl::Status s = chunker->Append(row_tensor(v), CellRef::EpisodeInfo{ep, step}, &ref);
  if (bad_episode || bad_step) {
    VCHECK(absl::IsFailedPrecondition(s) && ref.expired(), "rows of another episode or not after the last one are refused while rows are pending");
    verif_reach("refused");
    return;
  }
  VCHECK(s.ok(), "a matching row is accepted");
  auto sp = ref.lock();
  VCHECK(sp != nullptr, "a new row has a reference");
  if (!pending()) {
    chunks.push_back(ChunkModel{});
    chunks.back().key = sp->chunk_key();
  }
  auto& c = chunks.back();
  if (max_len > c.limit) c.limit = max_len;
  rows.push_back(Row{v, ep, step, (int)chunks.size() - 1, c.length, true, ref, nullptr});
  c.length++;
#if HOLD
  if (flip("hold")) rows.back().held = sp;
#endif
  if (c.length >= max_len) done();
  expire();
}
int32_t next_step() {
  // Any step after the last one of the episode.
  int32_t last = rows.empty() || rows.back().episode != episode ? -1 : rows.back().step;
  return last + (tuned ? 1 : (int32_t)verif::range(1, 1000000, "gap"));
}
std::shared_ptr<ChunkerOptions> make() {
  return std::make_shared<ConstantChunkerOptions>(max_len, keep, delta);
}
std::shared_ptr<Chunker> make_chunker() {
  internal::TensorSpec spec{"c", tf::DT_INT32, width ? tf::PartialTensorShape({width}) : tf::PartialTensorShape(std::initializer_list<int64_t>{})};
  return std::make_shared<Chunker>(spec, options);
}
void op() {
  switch (choose(7, "op")) {
    case 0:
      append(next_step(), episode);
      break;
    case 1:
      VCHECK(chunker->Flush().ok(), "flushing succeeds");
      done();
      break;
    case 2:
      chunker->Reset();
      if (pending()) chunks.back().lost = true;
      for (auto& r : rows) r.active = false;
      break;
    case 3: {
      // Refused rows.
      std::weak_ptr<CellRef> ref;
      int kind = choose(3, "wrong");
      tf::Tensor t = kind == 0 ? tf::Tensor(tf::DT_FLOAT, row_tensor(0).shape())
                   : kind == 1 ? tf::Tensor(tf::DT_INT32, tf::TensorShape({width + 1}))
                               : tf::Tensor(tf::DT_INT32, tf::TensorShape({1, 1}));
      VCHECK(absl::IsInvalidArgument(chunker->Append(t, CellRef::EpisodeInfo{episode, next_step()}, &ref)) && ref.expired(), "a row of another type or shape is refused");
      break;
    }
    case 4:
      // Not after the last row, or of another episode.
      if (flip("other episode")) append(0, episode + 1);
      else append(rows.empty() ? 0 : rows.back().step - (int32_t)verif::range(0, 1, "back"), episode);
      if (!rows.empty()) episode = rows.back().episode;
      break;
    case 5: {
      int ml = (int)verif::range32(-1, 4, "new length"), k = (int)verif::range32(-1, 4, "new keep");
      ml = (int)verif_concrete(ml), k = (int)verif_concrete(k);
      bool d = flip("new delta");
      auto o = std::make_shared<ConstantChunkerOptions>(ml, k, d);
      absl::Status s = chunker->ApplyConfig(o);
      if (pending()) { VCHECK(absl::IsFailedPrecondition(s), "pending rows must be flushed before reconfiguring"); break; }
      bool valid = ml > 0 && k >= ml;
      VCHECK(s.ok() == valid && (valid || absl::IsInvalidArgument(s)), "exactly valid configurations are accepted");
      if (!valid) break;
      options = o;
      max_len = ml, keep = k, delta = d;
      expire();
      verif_reach("reconfigured");
      break;
    }
    case 6: {
      // Copied options make chunks in the same way.
      auto o = options->Clone();
      VCHECK(o->GetMaxChunkLength() == (tuned ? 1 : max_len) && o->GetNumKeepAliveRefs() == keep && o->GetDeltaEncode() == delta, "a copy of the options has the same settings");
      break;
    }
  }
}
void pick() {
  width = choose(2, "width") * 2;
  max_len = 1 + choose(3, "max_chunk_length");
  keep = max_len + choose(2, "extra keep alive");
  delta = flip("delta");
}
#if PART == 0
void history() {
  pick();
  options = make();
  chunker = make_chunker();
  check();
  for (int i = 0; i < PREFILL; i++) append(next_step(), episode);
  for (int i = 0; i < OPS; i++) op();
  check();
  if (flip("drop")) {
    // A reference outlives its chunker.
    std::shared_ptr<CellRef> sp = rows.empty() ? nullptr : rows.back().held ? rows.back().held : rows.back().ref.lock();
    chunker = nullptr;
    tf::Tensor t;
    if (sp) VCHECK(!sp->GetData(&t).ok() || row_equal(t, rows.back().v), "data is not read from a destroyed column");
  }
}
#endif
#if PART == 1
// The automatically tuned chunk length.
void tune() {
  tuned = true;
  int keeps[] = {6, 3, 1};
  keep = keeps[choose(3, "keep alive")];
  max_len = 1;
  double weights[] = {1.0, 0.0, 100.0};
  options = std::make_shared<AutoTunedChunkerOptions>(keep, weights[choose(3, "weight")], false);
  chunker = make_chunker();
  for (int i = 0; i < ITEMS; i++) {
    max_len = options->GetMaxChunkLength();
    int n = flip("one row") ? 1 : 6;
    for (int k = 0; k < n; k++) append(next_step(), episode);
    VCHECK(chunker->Flush().ok(), "flushing succeeds");
    done();
    std::vector<std::shared_ptr<CellRef>> refs;
    for (int k = 0; k < (int)rows.size(); k++)
      if (rows[k].active) refs.push_back(rows[k].ref.lock());
    if (flip("last only")) refs.erase(refs.begin(), refs.end() - 1);
    int before = options->GetMaxChunkLength();
    chunker->OnItemFinalized(PrioritizedItem(), refs);
    refs.clear();
    int after = options->GetMaxChunkLength();
    if (after > before) verif_reach("longer");
    if (after < before) verif_reach("shorter");
    VCHECK(after >= 1 && after <= keep, "the chunk length stays within its limits");
  }
  max_len = options->GetMaxChunkLength();
  append(next_step(), episode);
  check();
}
#endif
#if PART == 2
// One thread appends and flushes while another one reads.
void parallel() {
  pick();
  options = make();
  chunker = make_chunker();
  for (int i = 0; i < 2; i++) append(next_step(), episode);
  auto sp = rows.back().ref.lock();
  auto first = rows[0].ref.lock();
  int32_t v = rows.back().v, v0 = rows[0].v;
  uint64_t key = sp->chunk_key();
  bool had = first != nullptr;
  int32_t step = next_step();
  int what = choose(2, "what");
  std::thread t([&] {
    if (what == 0) append(step, episode);
    VCHECK(chunker->Flush().ok(), "flushing succeeds");
    done();
  });
  for (int i = 0; i < 2; i++) {
    tf::Tensor x;
    VCHECK(sp->GetData(&x).ok() && row_equal(x, v), "a row can be read while its chunk is finalized");
    if (had) VCHECK(first->GetData(&x).ok() && row_equal(x, v0), "a row can be read while its chunk is finalized");
    auto keys = chunker->GetKeepKeys();
    VCHECK(!keys.empty() && (keys.back() == key || (what == 0 && keys.size() <= 3)), "live chunks are listed");
    if (sp->IsReady()) { VCHECK(sp->GetChunk() != nullptr, "a ready reference has its chunk"); verif_reach("ready"); }
  }
  t.join();
  VCHECK(sp->IsReady(), "a flushed row is ready");
  sp = first = nullptr;
  check();
}
#endif
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 1;
#if PART == 0
  history();
#elif PART == 1
  tune();
#else
  vs_cfg.preempt = PREEMPT;
  parallel();
#endif
  rows.clear();
  chunker = nullptr;
  verif_reach("done");
}
