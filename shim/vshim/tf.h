// Models of the TensorFlow classes the sources use: shapes, tensors, status,
// paths, and an in-memory file system with symbolic faults.
#ifndef VERIF_SHIM_TF_H_
#define VERIF_SHIM_TF_H_
#include <complex>
#include "vshim/absl.h"
#include "vshim/log.h"
#include "vshim/pb.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/framework/tensor_shape.pb.h"
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/protobuf/struct.pb.h"

namespace tensorflow {
using int8 = int8_t;
using int16 = int16_t;
using int32 = int32_t;
using int64 = int64_t;
using uint8 = uint8_t;
using uint16 = uint16_t;
using uint32 = uint32_t;
using uint64 = uint64_t;
using string = std::string;
using tstring = std::string;
using StringPiece = absl::string_view;
using complex64 = std::complex<float>;
using complex128 = std::complex<double>;
struct bfloat16 { uint16_t x; };
namespace error {
enum Code {
  OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5,
  ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9,
  ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14,
  DATA_LOSS = 15, UNAUTHENTICATED = 16
};
}
class Status {
 public:
  Status() : code_(error::OK) {}
  Status(error::Code c, absl::string_view m) : code_(c), msg_(m) {}
  Status(absl::StatusCode c, absl::string_view m) : code_((error::Code)(int)c), msg_(m) {}
  static Status OK() { return Status(); }
  bool ok() const { return code_ == error::OK; }
  error::Code code() const { return code_; }
  const std::string& error_message() const { return msg_; }
  absl::string_view message() const { return msg_; }
  std::string ToString() const { return ok() ? std::string("OK") : absl::StrCat((int)code_, ": ", msg_); }
  bool operator==(const Status& o) const { return code_ == o.code_ && msg_ == o.msg_; }
  bool operator!=(const Status& o) const { return !(*this == o); }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
 private:
  error::Code code_;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
inline Status FromAbslStatus(const absl::Status& s) { return s.ok() ? Status() : Status((error::Code)(int)s.code(), s.message()); }
inline absl::Status ToAbslStatus(const Status& s) { return s.ok() ? absl::OkStatus() : absl::Status((absl::StatusCode)(int)s.code(), s.error_message()); }
namespace errors {
#define V_TF_ERR(N, C) \
  template <class... A> Status N(A... a) { return Status(error::C, absl::StrCat(a...)); } \
  inline bool Is##N(const Status& s) { return s.code() == error::C; }
V_TF_ERR(Cancelled, CANCELLED)
V_TF_ERR(InvalidArgument, INVALID_ARGUMENT)
V_TF_ERR(NotFound, NOT_FOUND)
V_TF_ERR(AlreadyExists, ALREADY_EXISTS)
V_TF_ERR(ResourceExhausted, RESOURCE_EXHAUSTED)
V_TF_ERR(Unavailable, UNAVAILABLE)
V_TF_ERR(FailedPrecondition, FAILED_PRECONDITION)
V_TF_ERR(OutOfRange, OUT_OF_RANGE)
V_TF_ERR(Unimplemented, UNIMPLEMENTED)
V_TF_ERR(Internal, INTERNAL)
V_TF_ERR(Aborted, ABORTED)
V_TF_ERR(DeadlineExceeded, DEADLINE_EXCEEDED)
V_TF_ERR(DataLoss, DATA_LOSS)
V_TF_ERR(Unknown, UNKNOWN)
V_TF_ERR(PermissionDenied, PERMISSION_DENIED)
#undef V_TF_ERR
}  // namespace errors
#define TF_CHECK_OK(v) V_CHECK_IMPL((v).ok(), #v " is OK")
#define TF_QCHECK_OK(v) TF_CHECK_OK(v)
#define TF_RETURN_IF_ERROR(...) \
  do { ::tensorflow::Status v_s_ = (__VA_ARGS__); if (!v_s_.ok()) return v_s_; } while (0)

// ------------------------------------------------------------- data types
using DataTypeVector = std::vector<DataType>;
template <class T> struct DataTypeToEnum;
template <DataType D> struct EnumToDataType;
#define V_TF_TYPE(T, E) \
  template <> struct DataTypeToEnum<T> { static constexpr DataType value = E; static constexpr DataType v() { return E; } static constexpr DataType ref() { return E; } }; \
  template <> struct EnumToDataType<E> { typedef T Type; };
V_TF_TYPE(float, DT_FLOAT)
V_TF_TYPE(double, DT_DOUBLE)
V_TF_TYPE(int32, DT_INT32)
V_TF_TYPE(uint32, DT_UINT32)
V_TF_TYPE(uint16, DT_UINT16)
V_TF_TYPE(uint8, DT_UINT8)
V_TF_TYPE(int16, DT_INT16)
V_TF_TYPE(int8, DT_INT8)
V_TF_TYPE(tstring, DT_STRING)
V_TF_TYPE(complex64, DT_COMPLEX64)
V_TF_TYPE(complex128, DT_COMPLEX128)
V_TF_TYPE(int64, DT_INT64)
V_TF_TYPE(uint64, DT_UINT64)
V_TF_TYPE(bool, DT_BOOL)
V_TF_TYPE(bfloat16, DT_BFLOAT16)
#undef V_TF_TYPE
template <> struct DataTypeToEnum<long long> { static constexpr DataType value = DT_INT64; static constexpr DataType v() { return DT_INT64; } };
template <> struct DataTypeToEnum<unsigned long long> { static constexpr DataType value = DT_UINT64; static constexpr DataType v() { return DT_UINT64; } };
class DataTypeSet {
 public:
  constexpr explicit DataTypeSet(uint32_t m) : m_(m) {}
  constexpr bool Contains(DataType d) const { return (m_ >> (uint32_t)d) & 1; }
 private:
  uint32_t m_;
};
constexpr uint32_t v_bit(DataType d) { return 1u << (uint32_t)d; }
constexpr DataTypeSet kDataTypeIsUnsigned(v_bit(DT_UINT8) | v_bit(DT_UINT16) | v_bit(DT_UINT32) | v_bit(DT_UINT64));
constexpr DataTypeSet kDataTypeIsInteger(v_bit(DT_UINT8) | v_bit(DT_UINT16) | v_bit(DT_UINT32) | v_bit(DT_UINT64) | v_bit(DT_INT8) | v_bit(DT_INT16) | v_bit(DT_INT32) | v_bit(DT_INT64));
constexpr bool DataTypeIsUnsigned(DataType d) { return kDataTypeIsUnsigned.Contains(d); }
constexpr bool DataTypeIsInteger(DataType d) { return kDataTypeIsInteger.Contains(d); }
inline int DataTypeSize(DataType d) {
  switch (d) {
    case DT_FLOAT: case DT_INT32: case DT_UINT32: case DT_QINT32: return 4;
    case DT_DOUBLE: case DT_INT64: case DT_UINT64: case DT_COMPLEX64: return 8;
    case DT_COMPLEX128: return 16;
    case DT_UINT16: case DT_INT16: case DT_HALF: case DT_BFLOAT16: case DT_QINT16: case DT_QUINT16: return 2;
    case DT_UINT8: case DT_INT8: case DT_BOOL: case DT_QINT8: case DT_QUINT8: return 1;
    default: return 0;
  }
}
inline std::string DataTypeString(DataType d) {
  switch (d) {
    case DT_FLOAT: return "float"; case DT_DOUBLE: return "double"; case DT_INT32: return "int32";
    case DT_UINT32: return "uint32"; case DT_UINT16: return "uint16"; case DT_UINT8: return "uint8";
    case DT_INT16: return "int16"; case DT_INT8: return "int8"; case DT_STRING: return "string";
    case DT_INT64: return "int64"; case DT_UINT64: return "uint64"; case DT_BOOL: return "bool";
    case DT_HALF: return "half"; case DT_BFLOAT16: return "bfloat16"; case DT_INVALID: return "INVALID";
    default: return absl::StrCat("dtype", (int)d);
  }
}
inline bool DataTypeCanUseMemcpy(DataType d) { return DataTypeSize(d) > 0; }
#define TF_CALL_uint64(m) m(::tensorflow::uint64)
#define TF_CALL_int64(m) m(::tensorflow::int64)
#define TF_CALL_uint32(m) m(::tensorflow::uint32)
#define TF_CALL_uint16(m) m(::tensorflow::uint16)
#define TF_CALL_int16(m) m(::tensorflow::int16)
#define TF_CALL_uint8(m) m(::tensorflow::uint8)
#define TF_CALL_int8(m) m(::tensorflow::int8)
#define TF_CALL_int32(m) m(::tensorflow::int32)
#define TF_CALL_float(m) m(float)
#define TF_CALL_double(m) m(double)
#define TF_CALL_INTEGRAL_TYPES_NO_INT32(m) \
  TF_CALL_uint64(m) TF_CALL_int64(m) TF_CALL_uint32(m) TF_CALL_uint16(m) TF_CALL_int16(m) TF_CALL_uint8(m) TF_CALL_int8(m)
#define TF_CALL_INTEGRAL_TYPES(m) TF_CALL_INTEGRAL_TYPES_NO_INT32(m) TF_CALL_int32(m)
#define TF_CALL_FLOAT_TYPES(m) TF_CALL_float(m) TF_CALL_double(m)
#define TF_CALL_REAL_NUMBER_TYPES(m) TF_CALL_INTEGRAL_TYPES(m) TF_CALL_FLOAT_TYPES(m)

// ------------------------------------------------------------- shapes
struct TensorShapeDim {
  explicit TensorShapeDim(int64_t s) : size(s) {}
  int64_t size;
};
class PartialTensorShape;
class TensorShapeRep_ {
 public:
  static constexpr int kMax = 8;
  int dims() const { return n_; }
  int64_t dim_size(int i) const {
    V_CHECK_IMPL(i >= 0 && (unk_ || i < n_), "TensorShape::dim_size index in range");
    return unk_ ? -1 : d_[i];
  }
  bool unknown_rank() const { return unk_; }
  void RemoveDim(int i) {
    if (unk_) return;
    V_CHECK_IMPL(i >= 0 && i < n_, "TensorShape::RemoveDim index in range");
    for (int k = i; k + 1 < n_; k++) d_[k] = d_[k + 1];
    n_--;
  }
  void InsertDim(int i, int64_t s) {
    if (unk_) return;
    V_CHECK_IMPL(i >= 0 && i <= n_ && n_ < kMax, "TensorShape::InsertDim index in range");
    for (int k = n_; k > i; k--) d_[k] = d_[k - 1];
    d_[i] = s;
    n_++;
  }
  void set_dim(int i, int64_t s) {
    V_CHECK_IMPL(i >= 0 && i < n_, "TensorShape::set_dim index in range");
    d_[i] = s;
  }
  void Clear() { n_ = 0; unk_ = false; }
  std::vector<int64_t> dim_sizes() const { return std::vector<int64_t>(d_, d_ + n_); }
  std::string DebugString() const {
    if (unk_) return "<unknown>";
    std::string s = "[";
    for (int i = 0; i < n_; i++) {
      if (i) s += ",";
      s += d_[i] < 0 ? std::string("?") : absl::StrCat(d_[i]);
    }
    return s + "]";
  }
  void AsProto(TensorShapeProto* p) const {
    p->Clear();
    if (unk_) { p->set_unknown_rank(true); return; }
    for (int i = 0; i < n_; i++) p->add_dim()->set_size(d_[i]);
  }
  TensorShapeProto AsProto() const { TensorShapeProto p; AsProto(&p); return p; }
  bool vsame(const TensorShapeRep_& o) const {
    if (unk_ != o.unk_ || n_ != o.n_) return false;
    for (int i = 0; i < n_; i++) if (d_[i] != o.d_[i]) return false;
    return true;
  }
  struct Iter {
    const int64_t* p;
    TensorShapeDim operator*() const { return TensorShapeDim(*p); }
    Iter& operator++() { ++p; return *this; }
    bool operator!=(const Iter& o) const { return p != o.p; }
    bool operator==(const Iter& o) const { return p == o.p; }
  };
  Iter begin() const { return Iter{d_}; }
  Iter end() const { return Iter{d_ + n_}; }

 protected:
  void vfrom(const TensorShapeProto& p, bool partial) {
    n_ = 0;
    unk_ = p.unknown_rank();
    if (unk_) { V_CHECK_IMPL(partial, "TensorShape has known rank"); return; }
    V_CHECK_IMPL(p.dim_size() <= kMax, "shape has at most 8 dimensions (model bound)");
    for (const auto& d : p.dim()) {
      V_CHECK_IMPL(d.size() >= (partial ? -1 : 0), "shape dimension is non-negative");
      d_[n_++] = d.size();
    }
  }
  int64_t d_[kMax] = {};
  int n_ = 0;
  bool unk_ = false;
};
class TensorShape : public TensorShapeRep_ {
 public:
  TensorShape() {}
  TensorShape(std::initializer_list<int64_t> l) { for (int64_t x : l) AddDim(x); }
  explicit TensorShape(absl::Span<const int64_t> l) { for (int64_t x : l) AddDim(x); }
  explicit TensorShape(const TensorShapeProto& p) { vfrom(p, false); }
  void AddDim(int64_t s) {
    V_CHECK_IMPL(s >= 0, "TensorShape dimension is non-negative");
    V_CHECK_IMPL(n_ < kMax, "shape has at most 8 dimensions (model bound)");
    d_[n_++] = s;
  }
  void AppendShape(const TensorShape& o) { for (int i = 0; i < o.n_; i++) AddDim(o.d_[i]); }
  int64_t num_elements() const { int64_t r = 1; for (int i = 0; i < n_; i++) r *= d_[i]; return r; }
  bool IsSameSize(const TensorShape& o) const { return vsame(o); }
  bool operator==(const TensorShape& o) const { return vsame(o); }
  bool operator!=(const TensorShape& o) const { return !vsame(o); }
  static bool IsValid(const TensorShapeProto& p) {
    if (p.unknown_rank()) return false;
    for (const auto& d : p.dim()) if (d.size() < 0) return false;
    return true;
  }
};
class PartialTensorShape : public TensorShapeRep_ {
 public:
  PartialTensorShape() { unk_ = true; }
  PartialTensorShape(std::initializer_list<int64_t> l) { for (int64_t x : l) AddDim(x); }
  explicit PartialTensorShape(absl::Span<const int64_t> l) { for (int64_t x : l) AddDim(x); }
  PartialTensorShape(const TensorShapeProto& p) { vfrom(p, true); }
  PartialTensorShape(const TensorShape& s) { for (int i = 0; i < s.dims(); i++) d_[n_++] = s.dim_size(i); }
  int dims() const { return unk_ ? -1 : n_; }
  void AddDim(int64_t s) {
    if (unk_) return;
    V_CHECK_IMPL(n_ < kMax, "shape has at most 8 dimensions (model bound)");
    d_[n_++] = s;
  }
  PartialTensorShape Concatenate(const PartialTensorShape& o) const {
    if (unk_ || o.unk_) return PartialTensorShape();
    PartialTensorShape r(*this);
    for (int i = 0; i < o.n_; i++) r.AddDim(o.d_[i]);
    return r;
  }
  PartialTensorShape Concatenate(int64_t s) const { PartialTensorShape r(*this); r.AddDim(s); return r; }
  int64_t num_elements() const {
    if (unk_) return -1;
    int64_t r = 1;
    for (int i = 0; i < n_; i++) { if (d_[i] < 0) return -1; r *= d_[i]; }
    return r;
  }
  bool IsFullyDefined() const {
    if (unk_) return false;
    for (int i = 0; i < n_; i++) if (d_[i] < 0) return false;
    return true;
  }
  bool IsCompatibleWith(const PartialTensorShape& o) const {
    if (unk_ || o.unk_) return true;
    if (n_ != o.n_) return false;
    for (int i = 0; i < n_; i++) if (d_[i] >= 0 && o.d_[i] >= 0 && d_[i] != o.d_[i]) return false;
    return true;
  }
  bool IsIdenticalTo(const PartialTensorShape& o) const { return vsame(o); }
  bool operator==(const PartialTensorShape& o) const { return vsame(o); }
  bool AsTensorShape(TensorShape* s) const {
    if (!IsFullyDefined()) return false;
    s->Clear();
    for (int i = 0; i < n_; i++) s->AddDim(d_[i]);
    return true;
  }
  template <class T> static Status MakePartialShape(const T* d, int n, PartialTensorShape* out) {
    *out = PartialTensorShape({});
    for (int i = 0; i < n; i++) out->AddDim(d[i]);
    return Status();
  }
};

// ------------------------------------------------------------- tensors
struct VTensorBuf {
  int refs;
  int64_t n;
  char* data;
  tstring* strs;
};
#ifndef EIGEN_MAX_ALIGN_BYTES
#define EIGEN_MAX_ALIGN_BYTES 64
#endif
template <class T> struct VFlat {
  T* p;
  int64_t n0, n1;
  T* data() const { return p; }
  int64_t size() const { return n0 * n1; }
  int64_t dimension(int i) const { return i == 0 ? n0 : n1; }
  T& operator()(int64_t i) const { verif_assert_(i >= 0 && i < n0 * n1, "tensor element index in range"); return p[i]; }
  T& operator()(int64_t i, int64_t j) const {
    verif_assert_(i >= 0 && i < n0 && j >= 0 && j < n1, "tensor element index in range");
    return p[i * n1 + j];
  }
  T& operator()() const { return p[0]; }
  template <class V> void setConstant(const V& v) const { for (int64_t i = 0; i < size(); i++) p[i] = v; }
  void setZero() const { setConstant(T()); }
};
class Tensor {
 public:
  Tensor() : dt_(DT_FLOAT), sh_({0}) {}
  explicit Tensor(DataType d) : dt_(d), sh_({0}) {}
  Tensor(DataType d, const TensorShape& s) : dt_(d), sh_(s) { alloc(); }
  Tensor(float v) : Tensor(DT_FLOAT, TensorShape()) { flat<float>()(0) = v; }
  Tensor(double v) : Tensor(DT_DOUBLE, TensorShape()) { flat<double>()(0) = v; }
  Tensor(int32 v) : Tensor(DT_INT32, TensorShape()) { flat<int32>()(0) = v; }
  Tensor(int64 v) : Tensor(DT_INT64, TensorShape()) { flat<int64>()(0) = v; }
  Tensor(uint64 v) : Tensor(DT_UINT64, TensorShape()) { flat<uint64>()(0) = v; }
  Tensor(uint8 v) : Tensor(DT_UINT8, TensorShape()) { flat<uint8>()(0) = v; }
  Tensor(bool v) : Tensor(DT_BOOL, TensorShape()) { flat<bool>()(0) = v; }
  Tensor(tstring v) : Tensor(DT_STRING, TensorShape()) { flat<tstring>()(0) = v; }
  Tensor(const Tensor& o) : dt_(o.dt_), sh_(o.sh_), b_(o.b_), off_(o.off_) { if (b_) b_->refs++; }
  Tensor(Tensor&& o) : dt_(o.dt_), sh_(o.sh_), b_(o.b_), off_(o.off_) { o.b_ = nullptr; o.sh_ = TensorShape({0}); }
  Tensor& operator=(const Tensor& o) {
    if (o.b_) o.b_->refs++;
    unref();
    dt_ = o.dt_; sh_ = o.sh_; b_ = o.b_; off_ = o.off_;
    return *this;
  }
  Tensor& operator=(Tensor&& o) {
    if (&o == this) return *this;
    unref();
    dt_ = o.dt_; sh_ = o.sh_; b_ = o.b_; off_ = o.off_;
    o.b_ = nullptr; o.sh_ = TensorShape({0});
    return *this;
  }
  ~Tensor() { unref(); }
  DataType dtype() const { return dt_; }
  const TensorShape& shape() const { return sh_; }
  int dims() const { return sh_.dims(); }
  int64_t dim_size(int i) const { return sh_.dim_size(i); }
  int64_t NumElements() const { return sh_.num_elements(); }
  bool IsSameSize(const Tensor& o) const { return sh_.IsSameSize(o.sh_); }
  bool SharesBufferWith(const Tensor& o) const { return b_ && b_ == o.b_; }
  bool IsInitialized() const { return b_ || NumElements() == 0; }
  bool RefCountIsOne() const { return b_ && b_->refs == 1; }
  size_t TotalBytes() const { return dt_ == DT_STRING ? NumElements() * 24 : NumElements() * DataTypeSize(dt_); }
  size_t AllocatedBytes() const { return TotalBytes(); }
  bool IsAligned() const {
    return dt_ == DT_STRING || NumElements() == 0 || ((uintptr_t)vptr() % EIGEN_MAX_ALIGN_BYTES) == 0;
  }
  bool CopyFrom(const Tensor& o, const TensorShape& s) {
    if (o.NumElements() != s.num_elements()) return false;
    Tensor t(o);
    t.sh_ = s;
    *this = std::move(t);
    return true;
  }
  Status BitcastFrom(const Tensor& o, DataType d, const TensorShape& s) {
    if (DataTypeSize(d) == 0 || DataTypeSize(o.dt_) == 0 || DataTypeSize(d) * s.num_elements() != DataTypeSize(o.dt_) * o.NumElements())
      return errors::InvalidArgument("bitcast size mismatch");
    Tensor t(o);
    t.dt_ = d; t.sh_ = s;
    *this = std::move(t);
    return Status();
  }
  Tensor Slice(int64_t a, int64_t b) const {
    V_CHECK_IMPL(dims() >= 1, "Tensor::Slice dims() >= 1");
    V_CHECK_IMPL(0 <= a && a <= b && b <= dim_size(0), "Tensor::Slice 0 <= start <= limit <= dim0");
    if (a == 0 && b == dim_size(0)) return *this;
    Tensor t(*this);
    t.sh_.set_dim(0, b - a);
    if (dim_size(0) > 0) t.off_ += NumElements() / dim_size(0) * a;
    return t;
  }
  Tensor SubSlice(int64_t i) const {
    V_CHECK_IMPL(dims() >= 1, "Tensor::SubSlice dims() >= 1");
    V_CHECK_IMPL(0 <= i && i < dim_size(0), "Tensor::SubSlice 0 <= index < dim0");
    Tensor t(*this);
    t.sh_.RemoveDim(0);
    t.off_ += NumElements() / dim_size(0) * i;
    return t;
  }
  template <class T> VFlat<T> vflat(int64_t n0, int64_t n1) const {
    V_CHECK_IMPL(dt_ == DataTypeToEnum<T>::v(), "Tensor accessed with its own dtype");
    V_CHECK_IMPL(IsAligned(), "Tensor accessed while aligned");
    T* p = nullptr;
    if (b_) p = reinterpret_cast<T*>(vptr());
    return VFlat<T>{p, n0, n1};
  }
  template <class T> VFlat<T> flat() const { return vflat<T>(NumElements(), 1); }
  template <class T> VFlat<T> unaligned_flat() const { return VFlat<T>{reinterpret_cast<T*>(vptr()), NumElements(), 1}; }
  template <class T> VFlat<T> vec() const { V_CHECK_IMPL(dims() == 1, "Tensor::vec of rank 1"); return flat<T>(); }
  template <class T> VFlat<T> matrix() const { V_CHECK_IMPL(dims() == 2, "Tensor::matrix of rank 2"); return vflat<T>(dim_size(0), dim_size(1)); }
  template <class T> VFlat<T> scalar() const { V_CHECK_IMPL(NumElements() == 1, "Tensor::scalar of one element"); return flat<T>(); }
  template <class T> VFlat<T> flat_outer_dims() const {
    int64_t n1 = 1;
    for (int i = 1; i < dims(); i++) n1 *= dim_size(i);
    return vflat<T>(dims() ? dim_size(0) : 1, n1);
  }
  template <class T> VFlat<T> flat_inner_dims() const {
    int64_t n0 = 1;
    for (int i = 0; i + 1 < dims(); i++) n0 *= dim_size(i);
    return vflat<T>(n0, dims() ? dim_size(dims() - 1) : 1);
  }
  StringPiece tensor_data() const {
    if (!b_ || dt_ == DT_STRING) return StringPiece();
    return StringPiece(vptr(), TotalBytes());
  }
  void* data() const { return vptr(); }
  std::string DebugString() const { return absl::StrCat("Tensor<type: ", DataTypeString(dt_), " shape: ", sh_.DebugString(), ">"); }
  std::string SummarizeValue(int64_t) const { return "..."; }
  void AsProtoTensorContent(TensorProto* p) const {
    p->Clear();
    p->set_dtype(dt_);
    sh_.AsProto(p->mutable_tensor_shape());
    if (!b_) return;
    if (dt_ == DT_STRING) {
      std::string* c = p->mutable_tensor_content();
      for (int64_t i = 0; i < NumElements(); i++) {
        const tstring& s = b_->strs[off_ + i];
        uint64_t n = s.size();
        c->append((const char*)&n, 8);
        c->append(s);
      }
    } else {
      p->mutable_tensor_content()->assign(vptr(), TotalBytes());
    }
  }
  void AsProtoField(TensorProto* p) const { AsProtoTensorContent(p); }
  bool FromProto(const TensorProto& p) {
    if (p.dtype() == DT_INVALID || (p.dtype() != DT_STRING && DataTypeSize(p.dtype()) == 0)) return false;
    if (!TensorShape::IsValid(p.tensor_shape())) return false;
    Tensor t(p.dtype(), TensorShape(p.tensor_shape()));
    int64_t n = t.NumElements();
    const std::string& c = p.tensor_content();
    if (n > 0 && !c.empty()) {
      if (t.dt_ == DT_STRING) {
        size_t at = 0;
        for (int64_t i = 0; i < n; i++) {
          if (at + 8 > c.size()) return false;
          uint64_t l;
          memcpy(&l, c.data() + at, 8);
          at += 8;
          if (l > c.size() - at) return false;
          t.b_->strs[i].assign(c.data() + at, l);
          at += l;
        }
        if (at != c.size()) return false;
      } else {
        if (c.size() != t.TotalBytes()) return false;
        memcpy(t.vptr(), c.data(), c.size());
      }
    } else if (n > 0 && t.dt_ == DT_STRING) {
      int m = p.string_val_size();
      for (int64_t i = 0; i < n && m > 0; i++) t.b_->strs[i] = p.string_val(i < m ? i : m - 1);
    } else if (n > 0) {
      memset(t.vptr(), 0, t.TotalBytes());
    }
    *this = std::move(t);
    return true;
  }
  char* vptr() const { return !b_ ? nullptr : dt_ == DT_STRING ? (char*)(b_->strs + off_) : b_->data + off_ * DataTypeSize(dt_); }
  tstring* vstrs() const { return b_ ? b_->strs + off_ : nullptr; }

 private:
  void alloc() {
    int64_t n = sh_.num_elements();
    if (n == 0) return;
    V_CHECK_IMPL(dt_ == DT_STRING || DataTypeSize(dt_) > 0, "Tensor has an allocatable dtype");
    b_ = new VTensorBuf;
    b_->refs = 1;
    b_->n = n;
    b_->data = nullptr;
    b_->strs = nullptr;
    if (dt_ == DT_STRING) b_->strs = new tstring[n];
#ifdef VERIF_NATIVE
    else b_->data = (char*)aligned_alloc(64, (n * DataTypeSize(dt_) + 63) / 64 * 64);
#else
    else b_->data = (char*)malloc(n * DataTypeSize(dt_));
#endif
  }
  void unref() {
    if (b_ && --b_->refs == 0) {
      if (b_->strs) delete[] b_->strs;
      else free(b_->data);
      delete b_;
    }
    b_ = nullptr;
  }
  DataType dt_;
  TensorShape sh_;
  VTensorBuf* b_ = nullptr;
  int64_t off_ = 0;  // in elements
};
namespace tensor {
inline Tensor DeepCopy(const Tensor& o) {
  Tensor t(o.dtype(), o.shape());
  if (o.dtype() == DT_STRING) {
    for (int64_t i = 0; i < o.NumElements(); i++) t.vstrs()[i] = o.vstrs()[i];
  } else if (o.NumElements() > 0) {
    memcpy(t.vptr(), o.vptr(), o.TotalBytes());
  }
  return t;
}
inline Status Concat(const std::vector<Tensor>& ts, Tensor* out) {
  if (ts.empty()) return errors::InvalidArgument("Cannot concatenate zero tensors");
  int64_t total = 0;
  for (const Tensor& t : ts) {
    if (t.dims() == 0) return errors::InvalidArgument("Cannot concatenate a zero-dimensional tensor");
    total += t.dim_size(0);
  }
  TensorShape s = ts[0].shape();
  s.set_dim(0, total);
  for (const Tensor& t : ts) if (t.dtype() != ts[0].dtype()) return errors::InvalidArgument("Cannot concatenate tensors of different dtypes");
  Tensor r(ts[0].dtype(), s);
  int64_t at = 0;
  for (const Tensor& t : ts) {
    V_CHECK_IMPL(at + t.NumElements() <= r.NumElements(), "tensor::Concat inputs fit the result");
    if (r.dtype() == DT_STRING) {
      for (int64_t i = 0; i < t.NumElements(); i++) r.vstrs()[at + i] = t.vstrs()[i];
    } else if (t.NumElements() > 0) {
      memcpy(r.vptr() + at * DataTypeSize(r.dtype()), t.vptr(), t.TotalBytes());
    }
    at += t.NumElements();
  }
  *out = std::move(r);
  return Status();
}
inline Status Concat(std::initializer_list<Tensor> ts, Tensor* out) { return Concat(std::vector<Tensor>(ts), out); }
}  // namespace tensor

// ------------------------------------------------------------- hashing
inline uint64_t Hash64(const char* p, size_t n, uint64_t seed = 0xDECAFCAFFEULL) {
  uint64_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + (unsigned char)p[i];
  return h;
}
inline uint64_t Hash64(const std::string& s) { return Hash64(s.data(), s.size()); }
inline uint64_t Hash64Combine(uint64_t a, uint64_t b) { return a ^ (b + 0x9e3779b97f4a7800ULL + (a << 10) + (a >> 4)); }
template <class T, class E = void> struct hash : std::hash<T> {};

// ------------------------------------------------------------- file system
namespace io {
inline std::string vjoin(absl::string_view a, absl::string_view b) {
  std::string r(a);
  if (r.empty()) return std::string(b);
  if (b.empty()) return r;
  if (r.back() != '/') r += '/';
  if (b.front() == '/') b.remove_prefix(1);
  r.append(b.data(), b.size());
  return r;
}
template <class A, class B> std::string JoinPath(const A& a, const B& b) { return vjoin(a, b); }
template <class A, class B, class... C> std::string JoinPath(const A& a, const B& b, const C&... c) { return JoinPath(vjoin(a, b), c...); }
inline StringPiece Basename(StringPiece p) {
  size_t k = p.rfind('/');
  return k == StringPiece::npos ? p : p.substr(k + 1);
}
inline StringPiece Dirname(StringPiece p) {
  size_t k = p.rfind('/');
  return k == StringPiece::npos ? StringPiece() : p.substr(0, k == 0 ? 1 : k);
}
}  // namespace io
}  // namespace tensorflow

// The file system: a list of directories and files.  Every operation that
// changes it is a numbered step; a harness can crash the process before a
// step (later steps have no effect) or make steps fail.
struct VFile {
  std::string path;
  bool dir;
  std::string data;
};
struct VFs {
  std::vector<VFile> files;
  int step = 0;
  int crash_at = -1;        // step number before which the process dies
  bool crashed = false;
  int faults = 0;           // how many steps may fail (chosen per step)
  bool faulted = false;
  const char* fault_op = "";
  int open_handles = 0;
  VFile* find(absl::string_view p) {
    for (auto& f : files) if (f.path == p) return &f;
    return nullptr;
  }
  bool has(absl::string_view p) { return find(p) != nullptr; }
  // Returns false when the step must not happen.
  bool enter(const char* op) {
    if (crashed) return false;
    if (step++ == crash_at) { crashed = true; return false; }
    if (faults > 0 && verif::flip("io-fault")) { faults--; faulted = true; fault_op = op; return false; }
    return true;
  }
  tensorflow::Status fail() { return tensorflow::Status(tensorflow::error::UNAVAILABLE, crashed ? "process crashed" : "injected I/O error"); }
};
extern VFs v_fs;

namespace tensorflow {
class WritableFile {
 public:
  explicit WritableFile(std::string p) : p_(std::move(p)) { v_fs.open_handles++; }
  // Like PosixWritableFile: data sits in a stdio buffer until Flush/Close, and
  // the destructor closes the file ignoring errors.
  virtual ~WritableFile() { if (open_) Close(); v_fs.open_handles--; }
  virtual Status Append(StringPiece d) {
    if (!open_) return errors::FailedPrecondition("closed");
    if (v_fs.crashed) return v_fs.fail();
    buf_.append(d.data(), d.size());
    return Status();
  }
  virtual Status Flush() {
    if (buf_.empty()) return Status();
    if (!v_fs.enter("flush")) { if (!v_fs.crashed) partial(); return v_fs.fail(); }
    if (VFile* f = v_fs.find(p_)) f->data += buf_;
    buf_.clear();
    return Status();
  }
  virtual Status Sync() { return Flush(); }
  virtual Status Close() {
    if (!open_) return errors::FailedPrecondition("closed");
    open_ = false;
    if (buf_.empty() && !v_fs.crashed) return Status();
    if (!v_fs.enter("close")) { if (!v_fs.crashed) partial(); return v_fs.fail(); }
    if (VFile* f = v_fs.find(p_)) f->data += buf_;
    buf_.clear();
    return Status();
  }
 private:
  void partial() { buf_.clear(); }
  std::string p_, buf_;
  bool open_ = true;
};
class RandomAccessFile {
 public:
  explicit RandomAccessFile(std::string d) : d_(std::move(d)) { v_fs.open_handles++; }
  virtual ~RandomAccessFile() { v_fs.open_handles--; }
  const std::string& vdata() const { return d_; }
 private:
  std::string d_;
};
class Env {
 public:
  static Env* Default() { static Env e; return &e; }
  Status NewWritableFile(const std::string& p, std::unique_ptr<WritableFile>* f) {
    if (!v_fs.has(io::Dirname(p))) return errors::NotFound(p);
    if (!v_fs.enter("create")) return v_fs.fail();
    if (VFile* o = v_fs.find(p)) {
      if (o->dir) return errors::FailedPrecondition(p);
      o->data.clear();
    } else {
      v_fs.files.push_back(VFile{p, false, ""});
    }
    *f = std::make_unique<WritableFile>(p);
    return Status();
  }
  Status NewRandomAccessFile(const std::string& p, std::unique_ptr<RandomAccessFile>* f) {
    VFile* o = v_fs.find(p);
    if (!o || o->dir) return errors::NotFound(p);
    *f = std::make_unique<RandomAccessFile>(o->data);
    return Status();
  }
  Status FileExists(const std::string& p) { return v_fs.has(p) ? Status() : errors::NotFound(p); }
  Status IsDirectory(const std::string& p) { VFile* f = v_fs.find(p); return !f ? errors::NotFound(p) : f->dir ? Status() : errors::FailedPrecondition(p); }
  Status CreateDir(const std::string& p) {
    if (v_fs.has(p)) return errors::AlreadyExists(p);
    if (!v_fs.enter("mkdir")) return v_fs.fail();
    v_fs.files.push_back(VFile{p, true, ""});
    return Status();
  }
  Status RecursivelyCreateDir(const std::string& p) {
    if (p.empty() || p == "/") return Status();
    if (v_fs.has(p)) return Status();
    StringPiece d = io::Dirname(p);
    if (!d.empty() && d != "/") TF_RETURN_IF_ERROR(RecursivelyCreateDir(std::string(d)));
    return CreateDir(p);
  }
  Status GetChildren(const std::string& d, std::vector<std::string>* out) {
    if (!v_fs.has(d)) return errors::NotFound(d);
    for (auto& f : v_fs.files) if (io::Dirname(f.path) == d) out->push_back(std::string(io::Basename(f.path)));
    return Status();
  }
  static bool vmatch(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') return vmatch(p + 1, s) || (*s && vmatch(p, s + 1));
    return *s && (*p == '?' || *p == *s) && vmatch(p + 1, s + 1);
  }
  Status GetMatchingPaths(const std::string& pat, std::vector<std::string>* out) {
    out->clear();
    std::string d(io::Dirname(pat)), b(io::Basename(pat));
    for (auto& f : v_fs.files) {
      std::string fb(io::Basename(f.path));
      if (io::Dirname(f.path) == d && vmatch(b.c_str(), fb.c_str())) out->push_back(f.path);
    }
    return Status();
  }
  Status DeleteFile(const std::string& p) {
    if (!v_fs.has(p)) return errors::NotFound(p);
    if (!v_fs.enter("unlink")) return v_fs.fail();
    for (size_t i = 0; i < v_fs.files.size(); i++)
      if (v_fs.files[i].path == p) { v_fs.files.erase(v_fs.files.begin() + i); break; }
    return Status();
  }
  Status DeleteDir(const std::string& p) {
    std::vector<std::string> ch;
    TF_RETURN_IF_ERROR(GetChildren(p, &ch));
    if (!ch.empty()) return errors::FailedPrecondition(p);
    return DeleteFile(p);
  }
  Status RenameFile(const std::string& a, const std::string& b) {
    if (!v_fs.has(a)) return errors::NotFound(a);
    if (!v_fs.enter("rename")) return v_fs.fail();
    for (size_t i = 0; i < v_fs.files.size(); i++)
      if (v_fs.files[i].path == b) { v_fs.files.erase(v_fs.files.begin() + i); break; }
    for (auto& f : v_fs.files) {
      if (f.path == a) f.path = b;
      else if (absl::StartsWith(f.path, a + "/")) f.path = b + f.path.substr(a.size());
    }
    return Status();
  }
  template <class N> Status DeleteRecursively(const std::string& p, N* nf, N* nd) {
    *nf = 0;
    *nd = 0;
    VFile* f = v_fs.find(p);
    if (!f) { (*nd)++; return errors::NotFound(p); }
    if (!f->dir) { Status s = DeleteFile(p); if (!s.ok()) (*nf)++; return s; }
    std::vector<std::string> ch;
    Status r = GetChildren(p, &ch);
    for (auto& c : ch) {
      N a, b;
      Status s = DeleteRecursively(io::JoinPath(p, c), &a, &b);
      *nf += a;
      *nd += b;
      r.Update(s);
    }
    Status s = DeleteDir(p);
    if (!s.ok()) { (*nd)++; r.Update(s); }
    return r;
  }
  Status GetFileSize(const std::string& p, uint64* n) { VFile* f = v_fs.find(p); if (!f) return errors::NotFound(p); *n = f->data.size(); return Status(); }
  bool CreateUniqueFileName(std::string* p, const std::string& suffix) { static int n = 0; *p += absl::StrCat("/tmp/v", n++, suffix); return true; }
  uint64 NowMicros() { return (uint64)(vs_now() / 1000); }
};
inline Status ReadFileToString(Env*, const std::string& p, std::string* d) { VFile* f = v_fs.find(p); if (!f) return errors::NotFound(p); *d = f->data; return Status(); }
inline Status WriteStringToFile(Env* e, const std::string& p, const StringPiece& d) {
  std::unique_ptr<WritableFile> f;
  TF_RETURN_IF_ERROR(e->NewWritableFile(p, &f));
  Status s = f->Append(d);
  if (s.ok()) s = f->Close();
  return s;
}
namespace io {
struct RecordWriterOptions { static RecordWriterOptions CreateRecordWriterOptions(const std::string&) { return {}; } };
struct RecordReaderOptions { static RecordReaderOptions CreateRecordReaderOptions(const std::string&) { return {}; } };
class RecordWriter {
 public:
  explicit RecordWriter(WritableFile* f, const RecordWriterOptions& = {}) : f_(f) {}
  virtual ~RecordWriter() { if (f_) Close(); }
  Status WriteRecord(StringPiece d) {
    if (!f_) return errors::FailedPrecondition("Writer not initialized or previously closed");
    uint64_t n = d.size();
    TF_RETURN_IF_ERROR(f_->Append(StringPiece((const char*)&n, 8)));
    return f_->Append(d);
  }
  Status Flush() {
    if (!f_) return errors::FailedPrecondition("Writer not initialized or previously closed");
    return f_->Flush();
  }
  // Without compression Close neither flushes nor closes the file.
  Status Close() { f_ = nullptr; return Status(); }
 private:
  WritableFile* f_;
};
class RecordReader {
 public:
  explicit RecordReader(RandomAccessFile* f, const RecordReaderOptions& = {}) : f_(f) {}
  Status ReadRecord(uint64* off, tstring* out) {
    const std::string& d = f_->vdata();
    if (*off == d.size()) return errors::OutOfRange("eof");
    if (*off > d.size() || d.size() - *off < 8) return errors::DataLoss("truncated record");
    uint64_t n;
    memcpy(&n, d.data() + *off, 8);
    if (n > d.size() - *off - 8) return errors::DataLoss("truncated record");
    out->assign(d.data() + *off + 8, n);
    *off += 8 + n;
    return Status();
  }
 private:
  RandomAccessFile* f_;
};
class SequentialRecordReader {
 public:
  explicit SequentialRecordReader(RandomAccessFile* f, const RecordReaderOptions& o = {}) : r_(f, o) {}
  Status ReadRecord(tstring* out) { return r_.ReadRecord(&off_, out); }
 private:
  RecordReader r_;
  uint64 off_ = 0;
};
}  // namespace io
}  // namespace tensorflow

// ------------------------------------------------------------- snappy
namespace snappy {
class Sink {
 public:
  virtual ~Sink() {}
  virtual void Append(const char* d, size_t n) = 0;
  virtual char* GetAppendBuffer(size_t n, char* scratch) { return scratch; }
  virtual char* GetAppendBufferVariable(size_t, size_t, char* scratch, size_t n, size_t* got) { *got = n; return scratch; }
  virtual void AppendAndTakeOwnership(char* d, size_t n, void (*del)(void*, const char*, size_t), void* arg) {
    Append(d, n);
    (*del)(arg, d, n);
  }
};
class Source {
 public:
  virtual ~Source() {}
  virtual size_t Available() const = 0;
  virtual const char* Peek(size_t* n) = 0;
  virtual void Skip(size_t n) = 0;
};
class ByteArraySource : public Source {
 public:
  ByteArraySource(const char* p, size_t n) : p_(p), n_(n) {}
  size_t Available() const override { return n_; }
  const char* Peek(size_t* n) override { *n = n_; return p_; }
  void Skip(size_t n) override { n_ -= n; p_ += n; }
 private:
  const char* p_;
  size_t n_;
};
// The codec is modelled by "length, bytes": compression is any injective map,
// and uncompression rejects input whose length does not match.
inline size_t Compress(Source* s, Sink* o) {
  uint64_t n = s->Available();
  o->Append((const char*)&n, 8);
  size_t left = n;
  while (left > 0) {
    size_t k;
    const char* p = s->Peek(&k);
    if (k > 16) k = 16;
    char scratch[16];
    char* d = o->GetAppendBuffer(k, scratch);
    memcpy(d, p, k);
    o->Append(d, k);
    s->Skip(k);
    left -= k;
  }
  return n + 8;
}
inline bool Uncompress(Source* s, Sink* o) {
  size_t k;
  const char* p = s->Peek(&k);
  if (k < 8) return false;
  uint64_t n;
  memcpy(&n, p, 8);
  if (n != k - 8) return false;
  char c;
  size_t got = 0;
  char* buf = o->GetAppendBufferVariable(1, n, &c, 1, &got);
  if (got >= n) {
    memcpy(buf, p + 8, n);
    o->Append(buf, n);
    return true;
  }
  for (size_t i = 0; i < n; i += 16) {
    size_t m = n - i < 16 ? n - i : 16;
    char* b = new char[m];
    memcpy(b, p + 8 + i, m);
    o->AppendAndTakeOwnership(b, m, [](void*, const char* q, size_t) { delete[] q; }, nullptr);
  }
  return true;
}
inline size_t Compress(const char* p, size_t n, std::string* o) {
  uint64_t m = n;
  o->assign((const char*)&m, 8);
  o->append(p, n);
  return o->size();
}
inline bool GetUncompressedLength(const char* p, size_t n, size_t* r) { uint64_t m; if (n < 8) return false; memcpy(&m, p, 8); *r = m; return true; }
inline bool Uncompress(const char* p, size_t n, std::string* o) { if (n < 8) return false; o->assign(p + 8, n - 8); return true; }
inline bool RawUncompress(const char* p, size_t n, char* o) { if (n < 8) return false; memcpy(o, p + 8, n - 8); return true; }
}  // namespace snappy
#endif
