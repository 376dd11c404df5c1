// C14: delta encoding and compression of tensors, for every element value.
#include "common.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"
#include "tensorflow/core/framework/tensor.h"
using namespace deepmind::reverb;
namespace tf = tensorflow;
namespace {
const tf::DataType kTypes[] = {tf::DT_INT8, tf::DT_UINT8, tf::DT_INT16, tf::DT_UINT16, tf::DT_INT32, tf::DT_UINT32,
                               tf::DT_INT64, tf::DT_UINT64, tf::DT_FLOAT, tf::DT_DOUBLE, tf::DT_BOOL, tf::DT_STRING};
tf::TensorShape shape(int i) {
  switch (i) {
    case 0: return tf::TensorShape({});
    case 1: return tf::TensorShape({2});
    case 2: return tf::TensorShape({0, 2});
    case 3: return tf::TensorShape({1, 2});
    case 4: return tf::TensorShape({3, 2});
    case 5: return tf::TensorShape({2, 0});
    case 6: return tf::TensorShape({2, 1, 2});
    case 7: return tf::TensorShape({0});
    default: return tf::TensorShape({ROWS, 1});
  }
}
constexpr int kShapes = 9;
char* bytes(const tf::Tensor& t) { return const_cast<char*>(t.tensor_data().data()); }
tf::Tensor symbolic(tf::DataType d, const tf::TensorShape& s) {
  tf::Tensor t(d, s);
  int64_t n = t.NumElements();
  if (d == tf::DT_STRING) {
    for (int64_t i = 0; i < n; i++) {
      std::string x;
      int len = choose(3, "length");
      for (int k = 0; k < len; k++) x += (char)verif::u8("char");
      t.flat<tf::tstring>()(i) = x;
    }
    return t;
  }
  int sz = tf::DataTypeSize(d);
  for (int64_t i = 0; i < n; i++) {
    uint64_t v = verif_sym(d == tf::DT_BOOL ? 1 : 8 * sz, "element");
    memcpy(bytes(t) + i * sz, &v, sz);
  }
  return t;
}
void same(const tf::Tensor& a, const tf::Tensor& b, const char* what) {
  VCHECK(a.dtype() == b.dtype() && a.shape() == b.shape(), what);
  int64_t n = a.NumElements();
  if (a.dtype() == tf::DT_STRING) {
    for (int64_t i = 0; i < n; i++) VCHECK(a.flat<tf::tstring>()(i) == b.flat<tf::tstring>()(i), what);
    return;
  }
  int64_t k = n * tf::DataTypeSize(a.dtype());
  bool eq = true;
  for (int64_t i = 0; i < k; i++) eq &= bytes(a)[i] == bytes(b)[i];
  VCHECK(eq, what);
}
}  // namespace
extern "C" void verif_main() {
  tf::DataType d = kTypes[choose(12, "type")];
  tf::TensorShape s = shape(choose(kShapes, "shape"));
  tf::Tensor t = symbolic(d, s);
  tf::Tensor orig = tf::tensor::DeepCopy(t);
  bool integral = tf::DataTypeIsInteger(d);

  tf::Tensor enc = DeltaEncode(t, true);
  same(t, orig, "encoding leaves its argument alone");
  VCHECK(enc.dtype() == d && enc.shape() == s, "encoding keeps type and shape");
  if (!integral || s.dims() < 2) {
    same(enc, orig, "tensors that cannot be delta encoded are returned unchanged");
    verif_reach("unchanged");
  } else if (t.NumElements() > 0) {
    int sz = tf::DataTypeSize(d);
    int64_t cols = t.NumElements() / s.dim_size(0);
    bool ok = true;
    for (int64_t i = 0; i < t.NumElements(); i++) {
      uint64_t v = 0, p = 0, e = 0;
      memcpy(&v, bytes(t) + i * sz, sz);
      if (i >= cols) memcpy(&p, bytes(t) + (i - cols) * sz, sz);
      memcpy(&e, bytes(enc) + i * sz, sz);
      uint64_t mask = sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1;
      ok &= ((v - p) & mask) == e;
    }
    VCHECK(ok, "every row is encoded as its difference from the previous row");
    verif_reach("encoded");
  }
  tf::Tensor enc_copy = tf::tensor::DeepCopy(enc);
  same(DeltaEncode(enc, false), orig, "decoding an encoded tensor returns the original");
  same(enc, enc_copy, "decoding leaves its argument alone");

  tf::TensorProto proto;
  CompressTensorAsProto(enc, &proto);
  VCHECK(proto.dtype() == d, "the proto has the tensor's type");
  tf::Tensor dec = DecompressTensorFromProto(proto);
  same(dec, enc, "decompressing a compressed tensor returns the original");

  // The same through a chunk.
  tf::Tensor other = symbolic(tf::DT_INT32, shape(3));
  std::vector<tf::Tensor> list = DeltaEncodeList({t, other}, true);
  VCHECK(list.size() == 2, "a list of tensors is encoded element by element");
  ChunkData chunk;
  chunk.set_delta_encoded(true);
  CompressTensorAsProto(list[0], chunk.mutable_data()->add_tensors());
  CompressTensorAsProto(list[1], chunk.mutable_data()->add_tensors());
  tf::Tensor out;
  VCHECK(internal::UnpackChunkColumn(chunk, 0, &out).ok(), "a column unpacks");
  same(out, orig, "a compressed, delta encoded column unpacks to the original");
  VCHECK(internal::UnpackChunkColumn(chunk, 1, &out).ok(), "a column unpacks");
  same(out, other, "a compressed, delta encoded column unpacks to the original");
  std::vector<tf::Tensor> back = DeltaEncodeList(list, false);
  same(back[0], orig, "a list of tensors decodes to the original");
  same(back[1], other, "a list of tensors decodes to the original");
}
