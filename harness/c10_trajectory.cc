// C10, C11: trajectory writers: what reaches the server, for every history,
// schedule and stream failure.
#include <thread>
#include "mock_insert.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/trajectory_writer.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
struct Row { int32_t v; int episode; int step; std::weak_ptr<CellRef> ref; };
struct Want {
  std::string table;
  double prio;
  std::vector<std::vector<int>> rows;  // per column of the trajectory
  std::vector<int> from;               // which data column
  std::vector<bool> squeeze;
};
mock::Server server;
std::vector<Row> rows[2];
std::vector<Want> wants;
std::unique_ptr<TrajectoryWriter> w;
int episode = 0, step = 0;
bool partial = false;  // the current step has been added to already
int32_t element() {
#if SYMBOLIC
  return (int32_t)verif_sym(32, "element");
#else
  static int n = 0;
  return 10 + n++;
#endif
}
tf::Tensor row_tensor(int col, int32_t v) {
  tf::Tensor t(tf::DT_INT32, col ? tf::TensorShape({2}) : tf::TensorShape({}));
  auto f = t.flat<int32_t>();
  for (int i = 0; i < f.size(); i++) f(i) = v + i;
  return t;
}
absl::Status append(bool c0, bool c1, bool part) {
  std::vector<absl::optional<tf::Tensor>> data(COLS);
  int32_t v[2] = {0, 0};
  bool has[2] = {c0, c1};
  for (int i = 0; i < COLS; i++)
    if (has[i]) data[i] = row_tensor(i, v[i] = element());
  std::vector<absl::optional<std::weak_ptr<CellRef>>> refs;
  absl::Status s = part ? w->AppendPartial(data, &refs) : w->Append(data, &refs);
  if (!s.ok()) return s;
  VCHECK(refs.size() == COLS, "every column gets a reference or nothing");
  for (int i = 0; i < COLS; i++) {
    VCHECK(refs[i].has_value() == has[i], "exactly the columns with data get a reference");
    if (has[i]) rows[i].push_back({v[i], episode, step, *refs[i]});
  }
  if (!part) step++;
  return s;
}
// The rows of a data column that can still be referred to.
std::vector<int> alive(int c) {
  std::vector<int> r;
  for (size_t i = 0; i < rows[c].size(); i++)
    if (!rows[c][i].ref.expired()) r.push_back(i);
  return r;
}
std::vector<std::weak_ptr<CellRef>> refs_of(int c, const std::vector<int>& r) {
  std::vector<std::weak_ptr<CellRef>> out;
  for (int i : r) out.push_back(rows[c][i].ref);
  return out;
}
absl::Status create(Want x) {
  std::vector<TrajectoryColumn> t;
  for (size_t i = 0; i < x.rows.size(); i++) t.emplace_back(refs_of(x.from[i], x.rows[i]), (bool)x.squeeze[i]);
  return w->CreateItem(x.table, x.prio, t);
}
int table_no = 0;
Want new_want() {
  Want x;
  x.table = wants.size() % 2 ? "b" : "a";
  x.prio = SYMBOLIC ? (double)verif::range(-3, 3, "priority") : 1.0 + (double)wants.size();
  return x;
}
void add_column(Want* x, int from, std::vector<int> r, bool squeeze) {
  x->from.push_back(from);
  x->rows.push_back(r);
  x->squeeze.push_back(squeeze);
}
// Everything the server has received so far against what was asked for. Items
// that were sent again (because they were not confirmed) are passed over.
void check_items(bool all, bool resent) {
  absl::MutexLock l(&server.mu);
  std::vector<uint64_t> keys, episodes(4, 0);
  size_t n = 0;
  for (auto& s : server.items) {
    bool old = false;
    for (uint64_t k : keys) old |= k == s.item.key();
    if (old) {
      VCHECK(resent, "an item is sent exactly once");
      verif_reach("resent");
      continue;
    }
    VCHECK(n < wants.size(), "no other items are sent");
    keys.push_back(s.item.key());
    auto& x = wants[n++];
    VCHECK(s.item.table() == x.table && s.item.priority() == x.prio, "items are sent in order with their table and priority");
    VCHECK(s.confirm, "confirmation is asked for");
    auto& tr = s.item.flat_trajectory();
    VCHECK(tr.columns_size() == (int)x.rows.size(), "an item has its columns");
    for (size_t c = 0; c < x.rows.size(); c++) {
      VCHECK(tr.columns(c).squeeze() == x.squeeze[c], "a column keeps whether it is squeezed");
      size_t at = 0;
      for (auto& sl : tr.columns(c).chunk_slices()) {
        const ChunkData* d = server.find(sl.chunk_key());
        VCHECK(d != nullptr && sl.index() == 0, "a slice names a chunk");
        tf::Tensor t;
        VCHECK(internal::UnpackChunkColumn(*d, 0, &t).ok(), "a chunk can be unpacked");
        VCHECK(sl.length() > 0 && sl.offset() >= 0 && sl.offset() + sl.length() <= t.dim_size(0), "a slice lies within its chunk");
        for (int i = 0; i < sl.length(); i++) {
          VCHECK(at < x.rows[c].size(), "a column has exactly the rows it was created with");
          Row& r = rows[x.from[c]][x.rows[c][at++]];
          tf::Tensor e = t.SubSlice(sl.offset() + i);
          if (!e.IsAligned()) e = tf::tensor::DeepCopy(e);
          tf::Tensor want = row_tensor(x.from[c], r.v);
          VCHECK(e.shape() == want.shape() && e.dtype() == want.dtype(), "a row keeps its type and shape");
          bool eq = true;
          for (int k = 0; k < want.NumElements(); k++) eq = eq & (e.flat<int32_t>()(k) == want.flat<int32_t>()(k));
          VCHECK(eq, "a column has exactly the rows it was created with");
          auto& sr = d->sequence_range();
          VCHECK(sr.start() <= r.step && r.step <= sr.end(), "a chunk covers the steps of its rows");
          uint64_t& ep = episodes[r.episode];
          if (!ep) ep = sr.episode_id();
          VCHECK(ep == sr.episode_id(), "a chunk belongs to the episode of its rows");
        }
      }
      VCHECK(at == x.rows[c].size(), "a column has exactly the rows it was created with");
    }
  }
  for (size_t i = 0; i < episodes.size(); i++)
    for (size_t j = 0; j < i; j++) VCHECK(!episodes[i] || episodes[i] != episodes[j], "episodes have different ids");
  if (all) VCHECK(n == wants.size(), "every item is sent");
}
size_t confirmed() {
  absl::MutexLock l(&server.mu);
  return server.confirmed.size();
}
std::shared_ptr<ChunkerOptions> constant(int len, int extra) { return std::make_shared<ConstantChunkerOptions>(len, len + extra, SYMBOLIC && COLS == 1); }
void start(int len, int extra) {
  TrajectoryWriter::Options o;
  o.chunker_options = constant(len, extra);
  w = std::make_unique<TrajectoryWriter>(std::make_shared<mock::Stub>(&server), o);
}
#if PART == 0
void create_some(bool wide) {
  Want x = new_want();
  bool bad = false;
  for (int c = 0; c < COLS; c++) {
    auto a = alive(c);
    if (COLS == 2 && flip("leave out")) continue;
    std::vector<int> r;
    int kind = choose(wide ? 5 : 2, "rows");
    bool squeeze = false;
    if (a.empty() && kind < 3) continue;
    if (kind == 0) {
      r = a;  // everything
    } else if (kind == 1) {
      r.push_back(a[choose(a.size(), "row")]);
      squeeze = flip("squeeze");
    } else if (kind == 2) {
      for (int i = 0; i < 2; i++) r.push_back(a[choose(a.size(), "row")]);
      if (flip("squeeze two")) bad = squeeze = true;
    } else if (kind == 3) {
      bad = true;  // no rows
      squeeze = flip("squeeze none");
    } else {
      // With a row that is gone.
      if (a.size() == rows[c].size()) continue;
      bad = true;
      for (size_t i = 0; i < rows[c].size(); i++)
        if (rows[c][i].ref.expired()) { r.push_back(i); break; }
      if (!a.empty() && flip("and one that is not")) r.insert(flip("first") ? r.begin() : r.end(), a[0]);
    }
    add_column(&x, c, r, squeeze);
  }
  absl::Status s = create(x);
  if (bad || x.rows.empty()) {
    VCHECK(absl::IsInvalidArgument(s), "an invalid trajectory is refused");
    verif_reach("refused");
    return;
  }
  VCHECK(s.ok(), "a valid trajectory is accepted");
  wants.push_back(x);
}
void op() {
  switch (choose(5, "op")) {
    case 0:
      VCHECK(append(true, COLS == 1 || partial || flip("both"), false).ok(), "appending succeeds");
      partial = false;
      break;
    case 1:
      create_some(true);
      break;
    case 2:
      if (COLS == 2 && !partial && step < 3) {
        VCHECK(append(false, true, true).ok(), "appending part of a step succeeds");
        partial = true;
        // The rest of the step.
        if (flip("create between")) create_some(true);
        VCHECK(append(true, false, false).ok(), "appending the rest of a step succeeds");
        partial = false;
      } else {
        VCHECK(w->Flush().ok(), "flushing succeeds");
        check_items(true, false);
        VCHECK(confirmed() == wants.size(), "flushing waits for confirmation");
      }
      break;
    case 3: {
      bool clear = flip("clear");
      VCHECK(w->EndEpisode(clear).ok(), "ending the episode succeeds");
      check_items(true, false);
      for (int c = 0; clear && c < COLS; c++) VCHECK(alive(c).empty(), "clearing forgets every row");
      episode++;
      step = 0;
      verif_reach("episode");
      break;
    }
    case 4: {
      int len = 1 + choose(2, "new length");
      absl::Status s = w->ConfigureChunker(0, constant(len, 1));
      if (s.ok()) verif_reach("reconfigured");
      break;
    }
  }
}
void history() {
  int len = 1 + choose(3, "max_chunk_length");
  start(len, choose(2, "extra keep alive"));
  if (COLS == 2) VCHECK(w->ConfigureChunker(1, constant(1 + choose(2, "second length"), 1)).ok(), "configuring a column succeeds");
  for (int i = 0; i < PREFILL; i++) VCHECK(append(true, COLS == 2, false).ok(), "appending succeeds");
  create_some(COLS == 1);
  for (int i = 0; i < OPS; i++) op();
  if (flip("destroy")) {
    w = nullptr;
    check_items(true, false);
    return;
  }
  VCHECK(w->Flush().ok(), "flushing succeeds");
  check_items(true, false);
  w->Close();
  VCHECK(!append(true, false, false).ok() && !w->Flush().ok(), "a closed writer accepts nothing");
  w = nullptr;
}
#endif
#if PART == 1
// Faults and schedules: items over one column, some not finalized when they
// are created.
void one_item(int n) {
  auto a = alive(0);
  Want x = new_want();
  std::vector<int> r;
  for (size_t i = a.size() > (size_t)n ? a.size() - n : 0; i < a.size(); i++) r.push_back(a[i]);
  add_column(&x, 0, r, false);
  if (COLS == 2 && !alive(1).empty()) add_column(&x, 1, {alive(1).back()}, true);
  absl::Status s = create(x);
  if (s.ok()) { wants.push_back(x); return; }
  VCHECK(server.broke_permanently, "creating an item fails only after the stream failed for good");
}
void faults() {
  server.breaks = BREAKS;
  server.refuse = REFUSE;
  server.permanent = PERMANENT;
  start(LEN, 2);
  for (int i = 0; i < NITEMS; i++) {
    for (int k = 0; k < ROWS; k++) {
      absl::Status s = append(true, COLS == 2 && i > 0, false);
      VCHECK(s.ok() || server.broke_permanently, "appending fails only after the stream failed for good");
    }
    if (!rows[0].empty() && !alive(0).empty()) one_item(SPAN);
  }
  if (EARLY && flip("close early")) {
    w->Close();
    VCHECK(!w->Flush().ok() && !append(true, false, false).ok(), "a closed writer accepts nothing");
    check_items(false, server.broke);
    verif_reach("closed");
    w = nullptr;
    return;
  }
  int ignore = choose(IGNORE + 1, "ignore");
  server.hold = HOLD && flip("hold confirmations");
  bool hold = server.hold;
  absl::Status s = w->Flush(ignore, hold ? absl::Seconds(5) : absl::InfiniteDuration());
  if (s.ok()) {
    VCHECK(confirmed() + ignore >= wants.size(), "flushing succeeds only once the items are confirmed");
    if (server.broke) verif_reach("recovered");
    verif_reach("flushed");
  } else if (absl::IsDeadlineExceeded(s)) {
    VCHECK(hold, "flushing reports a deadline only when it passed");
    verif_reach("deadline");
  } else {
    VCHECK(server.broke_permanently, "flushing fails only after the stream failed for good");
    VCHECK(absl::IsInvalidArgument(s), "flushing reports the error of the stream");
    VCHECK(!append(true, false, false).ok() && absl::IsInvalidArgument(w->Flush()), "a failed writer keeps reporting its error");
    verif_reach("permanent");
  }
  check_items(s.ok() && ignore == 0, server.broke);
  {
    absl::MutexLock l(&server.mu);
    server.hold = false;
  }
  if (flip("destroy")) {
    // Flushes everything first.
    w = nullptr;
    check_items(!server.broke_permanently, server.broke);
    if (!server.broke_permanently) VCHECK(confirmed() == wants.size(), "destroying the writer flushes it");
    return;
  }
  w->Close();
  verif_reach("closed");
  check_items(false, server.broke);
  w = nullptr;
}
#endif
}  // namespace
extern "C" void verif_main() {
  v_rng.mode = 1;
#if PART == 0
  history();
#else
  vs_cfg.preempt = PREEMPT;
  faults();
#endif
  for (auto& r : rows) r.clear();
  verif_reach("done");
}
