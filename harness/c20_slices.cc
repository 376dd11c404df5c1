// C20: unpacking slices of chunks, and timestep trajectories.
#include "common.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"
#include "tensorflow/core/framework/tensor.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
#if PART == 0
void unpack() {
  // Two columns: one with inner dimension 2, one of another type (possibly a scalar).
  int rows = choose(MAXROWS + 1, "rows");
  bool delta = flip("delta");
  tf::Tensor a(tf::DT_INT32, tf::TensorShape({rows, 2}));
  for (int i = 0; i < rows * 2; i++) a.flat<int32_t>()(i) = verif::i32("element");
  int second = choose(3, "second column");
  tf::Tensor b(second == 2 ? tf::DT_DOUBLE : tf::DT_INT64, second == 1 ? tf::TensorShape({}) : tf::TensorShape({rows}));
  if (second == 2) for (int i = 0; i < rows; i++) b.flat<double>()(i) = i + 0.5;
  else for (int i = 0; i < b.NumElements(); i++) b.flat<tf::int64>()(i) = verif::i64("element");
  ChunkData chunk;
  chunk.set_delta_encoded(delta);
  chunk.set_chunk_key(verif::u64("key"));
  chunk.mutable_sequence_range()->set_end(rows - 1);
  CompressTensorAsProto(delta ? DeltaEncode(a, true) : a, chunk.mutable_data()->add_tensors());
  CompressTensorAsProto(delta ? DeltaEncode(b, true) : b, chunk.mutable_data()->add_tensors());
  int32_t col = verif::i32("column"), off = verif::i32("offset"), len = verif::i32("length");
  tf::Tensor out;
  absl::Status s;
  if (flip("by slice")) {
    FlatTrajectory::ChunkSlice sl;
    sl.set_chunk_key(chunk.chunk_key());
    sl.set_index(col);
    sl.set_offset(off);
    sl.set_length(len);
    s = internal::UnpackChunkColumnAndSlice(chunk, sl, &out);
  } else {
    s = internal::UnpackChunkColumnAndSlice(chunk, col, off, len, &out);
  }
  bool valid = (col == 0 || (col == 1 && second != 1)) && off >= 0 && len >= 0 && (int64_t)off + len <= rows;
  if (!valid) {
    VCHECK(!s.ok(), "an invalid reference is rejected");
    VCHECK(absl::IsInvalidArgument(s), "an invalid reference is an invalid argument");
    verif_reach("rejected");
    tf::Tensor whole;
    absl::Status s2 = internal::UnpackChunkColumn(chunk, col, &whole);
    VCHECK(s2.ok() == (col == 0 || col == 1), "a column is unpacked exactly when it exists");
    return;
  }
  VCHECK(s.ok(), "a valid reference is accepted");
  int64_t o = verif_concrete(off), n = verif_concrete(len);
  if (col == 0) {
    VCHECK(out.dtype() == tf::DT_INT32 && out.dims() == 2 && out.dim_size(0) == n && out.dim_size(1) == 2, "a slice has the rows referenced");
    for (int64_t i = 0; i < n * 2; i++)
      VCHECK(out.flat<int32_t>()(i) == a.flat<int32_t>()(o * 2 + i), "a slice holds the rows referenced");
    verif_reach("unpacked");
  } else {
    VCHECK(out.dtype() == b.dtype() && out.dims() == 1 && out.dim_size(0) == n, "a slice has the rows referenced");
    for (int64_t i = 0; i < n; i++)
      VCHECK(second == 2 ? out.flat<double>()(i) == o + i + 0.5 : out.flat<tf::int64>()(i) == b.flat<tf::int64>()(o + i), "a slice holds the rows referenced");
    verif_reach("unpacked second column");
  }
}
#endif
#if PART >= 1
void timestep() {
  // A valid timestep trajectory over consecutive chunks.
  int n = 1 + choose(MAXCHUNKS, "chunks");
  int columns = 1 + choose(2, "columns");
  std::vector<uint64_t> keys;
  std::vector<int> lens;
  int64_t total = 0;
  for (int i = 0; i < n; i++) {
    keys.push_back(verif::u64("key"));
    for (int j = 0; j < i; j++) verif_assume(keys[i] != keys[j]);
    lens.push_back(verif::range32(1, LENGTHS, "chunk length"));
    total += lens[i];
  }
  // The range starts in the first and ends in the last chunk.
  int off = verif::range32(0, LENGTHS, "offset"), len = verif::range32(1, 4 * LENGTHS + 3, "length");
  verif_assume(off < lens[0] && off + len <= total && off + len > total - lens[n - 1]);
  FlatTrajectory t;
  if (flip("from chunks")) {
    std::vector<std::shared_ptr<ChunkStore::Chunk>> chunks;
    bool lazy = flip("tensor count in a field");
    for (int i = 0; i < n; i++) {
      ChunkData d;
      d.set_chunk_key(keys[i]);
      int start = verif::range32(0, 1 << 20, "start");
      d.mutable_sequence_range()->set_start(start);
      d.mutable_sequence_range()->set_end(start + lens[i] - 1);
      for (int c = 0; c < columns; c++) d.mutable_data()->add_tensors();
      if (lazy) d.set_data_tensors_len(columns);
      chunks.push_back(std::make_shared<ChunkStore::Chunk>(d));
    }
    t = internal::FlatTimestepTrajectory(chunks, off, len);
  } else {
    t = internal::FlatTimestepTrajectory(keys, lens, columns, off, len);
  }
  VCHECK(t.columns_size() == columns, "the trajectory has all columns");
  for (int c = 0; c < columns; c++) {
    VCHECK(t.columns(c).chunk_slices_size() == n, "every chunk contributes one slice");
    int64_t sum = 0;
    for (int i = 0; i < n; i++) {
      auto& s = t.columns(c).chunk_slices(i);
      VCHECK(s.chunk_key() == keys[i] && s.index() == c, "a slice names its chunk and column");
      VCHECK(s.offset() == (i == 0 ? off : 0), "the rows are consecutive");
      VCHECK(s.length() > 0 && s.offset() + s.length() <= lens[i], "a slice lies within its chunk");
      if (i + 1 < n) VCHECK(s.offset() + s.length() == lens[i], "the rows are consecutive");
      sum += s.length();
    }
    VCHECK(sum == len, "the rows referenced are those asked for");
    VCHECK(internal::ColumnLength(t, c) == len, "the length of a column is the number of its rows");
  }
  VCHECK(internal::IsTimestepTrajectory(t), "a trajectory of aligned columns is a timestep trajectory");
  VCHECK(internal::TimestepTrajectoryLength(t) == len && internal::TimestepTrajectoryOffset(t) == off, "offset and length are those asked for");
  std::vector<uint64_t> got = internal::GetChunkKeys(t);
  VCHECK((int)got.size() == n, "every chunk is listed once");
  for (int i = 0; i < n; i++) VCHECK(got[i] == keys[i], "chunks are listed in order");
  verif_reach("timestep trajectory");
}
void any() {
  FlatTrajectory t;
  int columns = choose(MAXCOLS + 1, "columns");
  bool expect = columns > 0;
  std::vector<uint64_t> order;
  std::vector<std::array<int64_t, 4>> first;
  for (int c = 0; c < columns; c++) {
    auto* col = t.add_columns();
    int n = 1 + choose(MAXCHUNKS, "slices");
    int64_t sum = 0;
    if (c > 0 && n != (int)first.size()) expect = false;
    for (int i = 0; i < n; i++) {
      auto* s = col->add_chunk_slices();
      uint64_t key = verif::range(0, 3, "key");
      int off = verif::range32(0, 1 << 20, "offset"), len = verif::range32(0, 1 << 20, "length"), index = verif::i32("index");
      s->set_chunk_key(key);
      s->set_offset(off);
      s->set_length(len);
      s->set_index(index);
      sum += len;
      expect &= index == c;
      if (c == 0) {
        first.push_back({(int64_t)key, off, len, 0});
        if (i > 0) expect &= off == 0;
      } else if (i < (int)first.size()) {
        expect &= (int64_t)key == first[i][0] && off == first[i][1] && len == first[i][2];
      }
      bool seen = false;
      for (uint64_t k : order) seen = seen || k == key;
      if (!seen) order.push_back(key);
    }
    VCHECK(internal::ColumnLength(t, c) == sum, "the length of a column is the number of its rows");
  }
  VCHECK(internal::IsTimestepTrajectory(t) == expect, "a timestep trajectory is one whose columns are aligned over the same steps");
  if (expect) verif_reach("aligned");
  std::vector<uint64_t> keys = internal::GetChunkKeys(t);
  VCHECK(keys == order, "every chunk is listed once, in order of its first use");
}
#endif
}  // namespace
extern "C" void verif_main() {
#if PART == 0
  unpack();
#else
  if (PART == 1) timestep(); else any();
#endif
}
