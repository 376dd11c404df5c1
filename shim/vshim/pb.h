// Support library for the classes pbgen.py generates.
#ifndef VERIF_SHIM_PB_H_
#define VERIF_SHIM_PB_H_
#include "vshim/absl.h"
namespace google {
namespace protobuf {
class Arena {
 public:
  template <class T, class... A> static T* CreateMessage(Arena*, A&&... a) { return new T(std::forward<A>(a)...); }
  template <class T, class... A> static T* Create(Arena*, A&&... a) { return new T(std::forward<A>(a)...); }
};
class MessageLite { public: };
class Message : public MessageLite { public: };
struct VReader { const char* p; size_t n; bool ok; };
inline std::string vstr(std::string&& s) { return std::move(s); }
inline std::string vstr(const std::string& s) { return s; }
inline std::string vstr(std::string& s) { return s; }
inline std::string vstr(const char* s) { return s; }
inline std::string vstr(std::string_view s) { return std::string(s); }
template <class T, class = std::enable_if_t<!std::is_convertible<T, std::string_view>::value>> inline std::string vstr(const T& s) { return std::string(s); }
inline void vput(std::string* s, const std::string& v) {
  uint64_t n = v.size();
  s->append((const char*)&n, 8);
  s->append(v);
}
template <class T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, int> = 0>
void vput(std::string* s, const T& v) { s->append((const char*)&v, sizeof v); }
template <class T, std::enable_if_t<std::is_base_of<Message, T>::value, int> = 0>
void vput(std::string* s, const T& v) { v.vwrite(s); }
inline bool vget(VReader* r, std::string* v) {
  uint64_t n;
  if (r->n < 8) return false;
  memcpy(&n, r->p, 8); r->p += 8; r->n -= 8;
  if (n > r->n) return false;
  v->assign(r->p, n); r->p += n; r->n -= n;
  return true;
}
template <class T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, int> = 0>
bool vget(VReader* r, T* v) {
  if (r->n < sizeof *v) return false;
  memcpy(v, r->p, sizeof *v); r->p += sizeof *v; r->n -= sizeof *v;
  return true;
}
template <class T, std::enable_if_t<std::is_base_of<Message, T>::value, int> = 0>
bool vget(VReader* r, T* v) { return v->vread(r); }
inline size_t vsize(const std::string& v) { return v.size(); }
template <class T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, int> = 0> size_t vsize(const T& v) { return sizeof v; }
template <class T, std::enable_if_t<std::is_base_of<Message, T>::value, int> = 0> size_t vsize(const T& v) { return v.ByteSizeLong(); }
inline bool veq(const std::string& a, const std::string& b) { return a == b; }
template <class T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, int> = 0> bool veq(const T& a, const T& b) { return a == b; }
template <class T, std::enable_if_t<std::is_base_of<Message, T>::value, int> = 0> bool veq(const T& a, const T& b) { return a.vequals(b); }

template <class T>
class RepeatedField {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using size_type = int;
  RepeatedField() {}
  template <class I> RepeatedField(I b, I e) { Add(b, e); }
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  T Get(int i) const { ck(i); return v_[i]; }
  const T& operator[](int i) const { ck(i); return v_[i]; }
  T& operator[](int i) { ck(i); return v_[i]; }
  const T& at(int i) const { ck(i); return v_[i]; }
  T* Mutable(int i) { ck(i); return &v_[i]; }
  void Set(int i, T v) { ck(i); v_[i] = v; }
  void Add(T v) { v_.push_back(v); }
  T* Add() { return AddSlot(); }
  T* AddSlot() { v_.push_back(T()); return &v_.back(); }
  template <class I> void Add(I b, I e) { for (; b != e; ++b) v_.push_back(*b); }
  void RemoveLast() { ck(size() - 1); v_.pop_back(); }
  void Truncate(int n) { v_.resize(n); }
  void Resize(int n, T x) { v_.resize(n, x); }
  void Reserve(int n) { }
  void Clear() { v_.clear(); }
  void CopyFrom(const RepeatedField& o) { v_ = o.v_; }
  template <class I> void Assign(I b, I e) { v_.assign(b, e); }
  void MergeFrom(const RepeatedField& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  void Swap(RepeatedField* o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  T* erase(const T* p) { size_t i = p - data(); v_.erase(v_.begin() + i); return begin() + i; }
  T* erase(const T* p, const T* q) { size_t i = p - data(), j = q - data(); v_.erase(v_.begin() + i, v_.begin() + j); return begin() + i; }
  const T* data() const { return v_.data(); }
  T* mutable_data() { return v_.data(); }
  T* begin() { return v_.data(); }
  T* end() { return v_.data() + v_.size(); }
  const T* begin() const { return v_.data(); }
  const T* end() const { return v_.data() + v_.size(); }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return end(); }
  std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
  std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
 private:
  void ck(int i) const { if (i < 0 || i >= size()) verif_fail("RepeatedField index out of range"); }
  // (vector<bool> has no data())
  struct Vec {
    T* p = nullptr; size_t n = 0, c = 0;
    Vec() {}
    Vec(const Vec& o) { for (size_t i = 0; i < o.n; i++) push_back(o.p[i]); }
    Vec& operator=(const Vec& o) { if (this != &o) { n = 0; for (size_t i = 0; i < o.n; i++) push_back(o.p[i]); } return *this; }
    ~Vec() { delete[] p; }
    void push_back(T v) { if (n == c) { c = c ? c * 2 : 2; T* q = new T[c](); for (size_t i = 0; i < n; i++) q[i] = p[i]; delete[] p; p = q; } p[n++] = v; }
    void pop_back() { n--; }
    T& back() { return p[n - 1]; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T& operator[](size_t i) { return p[i]; }
    const T& operator[](size_t i) const { return p[i]; }
    T* data() { return p; }
    const T* data() const { return p; }
    T* begin() { return p; }
    T* end() { return p + n; }
    const T* begin() const { return p; }
    const T* end() const { return p + n; }
    void clear() { n = 0; }
    void resize(size_t m, T x = T()) { while (n < m) push_back(x); n = m; }
    template <class I> void assign(I b, I e) { n = 0; for (; b != e; ++b) push_back(*b); }
    void insert(T*, const T* b, const T* e) { for (; b != e; ++b) push_back(*b); }
    void erase(T* q) { erase(q, q + 1); }
    void erase(T* a, T* b) { while (b != end()) *a++ = *b++; n = a - p; }
    void swap(Vec& o) { std::swap(p, o.p); std::swap(n, o.n); std::swap(c, o.c); }
  } v_;
};
template <class T>
class RepeatedPtrField {
 public:
  template <bool C>
  class It {
   public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using pointer = std::conditional_t<C, const T*, T*>;
    using reference = std::conditional_t<C, const T&, T&>;
    It() : p_(nullptr) {}
    explicit It(T* const* p) : p_(p) {}
    template <bool D, class = std::enable_if_t<C && !D>> It(const It<D>& o) : p_(o.p_) {}
    reference operator*() const { return **p_; }
    pointer operator->() const { return *p_; }
    reference operator[](ptrdiff_t i) const { return *p_[i]; }
    It& operator++() { ++p_; return *this; }
    It operator++(int) { It t = *this; ++p_; return t; }
    It& operator--() { --p_; return *this; }
    It operator--(int) { It t = *this; --p_; return t; }
    It& operator+=(ptrdiff_t k) { p_ += k; return *this; }
    It& operator-=(ptrdiff_t k) { p_ -= k; return *this; }
    friend It operator+(It a, ptrdiff_t k) { a.p_ += k; return a; }
    friend It operator-(It a, ptrdiff_t k) { a.p_ -= k; return a; }
    friend ptrdiff_t operator-(It a, It b) { return a.p_ - b.p_; }
    friend bool operator==(It a, It b) { return a.p_ == b.p_; }
    friend bool operator!=(It a, It b) { return a.p_ != b.p_; }
    friend bool operator<(It a, It b) { return a.p_ < b.p_; }
    T* const* p_;
  };
  using value_type = T;
  using iterator = It<false>;
  using const_iterator = It<true>;
  RepeatedPtrField() {}
  RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField&& o) { Swap(&o); }
  template <class I> RepeatedPtrField(I b, I e) { for (; b != e; ++b) *Add() = *b; }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { CopyFrom(o); return *this; }
  RepeatedPtrField& operator=(RepeatedPtrField&& o) { if (this != &o) { Clear(); Swap(&o); } return *this; }
  ~RepeatedPtrField() { Clear(); }
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  const T& Get(int i) const { ck(i); return *v_[i]; }
  const T& operator[](int i) const { ck(i); return *v_[i]; }
  T& operator[](int i) { ck(i); return *v_[i]; }
  const T& at(int i) const { ck(i); return *v_[i]; }
  T& at(int i) { ck(i); return *v_[i]; }
  T* Mutable(int i) { ck(i); return v_[i]; }
  T* Add() { v_.push_back(new T); return v_.back(); }
  void Add(T&& t) { v_.push_back(new T(std::move(t))); }
  template <class I> void Add(I b, I e) { for (; b != e; ++b) *Add() = *b; }
  void AddAllocated(T* t) { v_.push_back(t); }
  void UnsafeArenaAddAllocated(T* t) { v_.push_back(t); }
  T* ReleaseLast() { ck(size() - 1); T* t = v_.back(); v_.pop_back(); return t; }
  T* UnsafeArenaReleaseLast() { return ReleaseLast(); }
  void RemoveLast() { delete ReleaseLast(); }
  void DeleteSubrange(int s, int n) { for (int i = 0; i < n; i++) { ck(s + i); delete v_[s + i]; } v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void ExtractSubrange(int s, int n, T** out) { for (int i = 0; i < n; i++) { ck(s + i); if (out) out[i] = v_[s + i]; else delete v_[s + i]; } v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void UnsafeArenaExtractSubrange(int s, int n, T** out) { for (int i = 0; i < n; i++) { ck(s + i); if (out) out[i] = v_[s + i]; } v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void Reserve(int) {}
  void Clear() { for (T* t : v_) delete t; v_.clear(); }
  void CopyFrom(const RepeatedPtrField& o) { if (&o == this) return; Clear(); MergeFrom(o); }
  template <class I> void Assign(I b, I e) { Clear(); Add(b, e); }
  void MergeFrom(const RepeatedPtrField& o) { for (T* t : o.v_) v_.push_back(new T(*t)); }
  void Swap(RepeatedPtrField* o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { ck(a); ck(b); std::swap(v_[a], v_[b]); }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  std::reverse_iterator<iterator> rbegin() { return std::reverse_iterator<iterator>(end()); }
  std::reverse_iterator<iterator> rend() { return std::reverse_iterator<iterator>(begin()); }
  std::reverse_iterator<const_iterator> rbegin() const { return std::reverse_iterator<const_iterator>(end()); }
  std::reverse_iterator<const_iterator> rend() const { return std::reverse_iterator<const_iterator>(begin()); }
  T** pointer_begin() { return v_.data(); }
  T** pointer_end() { return v_.data() + v_.size(); }
  T** mutable_data() { return v_.data(); }
  T* const* data() const { return v_.data(); }
  iterator erase(const_iterator it) { int i = it - cbegin(); DeleteSubrange(i, 1); return begin() + i; }
  iterator erase(const_iterator a, const_iterator b) { int i = a - cbegin(); DeleteSubrange(i, b - a); return begin() + i; }
  Arena* GetArena() const { return nullptr; }
 private:
  void ck(int i) const { if (i < 0 || i >= size()) verif_fail("RepeatedPtrField index out of range"); }
  std::vector<T*> v_;
};
template <class R> struct RepeatedInserter {
  using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = void; using pointer = void; using reference = void;
  R* r;
  template <class V> RepeatedInserter& operator=(const V& v) { *r->Add() = v; return *this; }
  RepeatedInserter& operator*() { return *this; }
  RepeatedInserter& operator++() { return *this; }
  RepeatedInserter& operator++(int) { return *this; }
};
template <class T> RepeatedInserter<RepeatedField<T>> RepeatedFieldBackInserter(RepeatedField<T>* r) { return {r}; }
template <class T> RepeatedInserter<RepeatedPtrField<T>> RepeatedPtrFieldBackInserter(RepeatedPtrField<T>* r) { return {r}; }
// Element order of proto maps is unspecified; this one keeps insertion order.
template <class K, class V>
class Map {
 public:
  using value_type = std::pair<const K, V>;
  Map() {}
  Map(const Map& o) { for (auto& kv : o) (*this)[kv.first] = kv.second; }
  Map& operator=(const Map& o) { if (this != &o) { clear(); for (auto& kv : o) (*this)[kv.first] = kv.second; } return *this; }
  using L = std::list<std::pair<const K, V>>;
  using iterator = typename L::iterator;
  using const_iterator = typename L::const_iterator;
  size_t size() const { return l_ ? l_->size() : 0; }
  bool empty() const { return size() == 0; }
  void clear() { l_.reset(); }
  void swap(Map& o) { l_.swap(o.l_); }
  iterator begin() { return l().begin(); }
  iterator end() { return l().end(); }
  const_iterator begin() const { return l().begin(); }
  const_iterator end() const { return l().end(); }
  template <class Q> iterator find(const Q& k) { auto it = begin(); for (; it != end(); ++it) if (it->first == k) break; return it; }
  template <class Q> const_iterator find(const Q& k) const { auto it = begin(); for (; it != end(); ++it) if (it->first == k) break; return it; }
  template <class Q> size_t count(const Q& k) const { return find(k) != end(); }
  template <class Q> bool contains(const Q& k) const { return find(k) != end(); }
  template <class Q> V& operator[](const Q& k) { auto it = find(k); if (it != end()) return it->second; l().emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); return l().back().second; }
  template <class Q> V& at(const Q& k) { auto it = find(k); if (it == end()) verif_fail("Map::at: no such key"); return it->second; }
  template <class Q> const V& at(const Q& k) const { auto it = find(k); if (it == end()) verif_fail("Map::at: no such key"); return it->second; }
  std::pair<iterator, bool> insert(const value_type& v) { auto it = find(v.first); if (it != end()) return {it, false}; l().emplace_back(v); return {--end(), true}; }
  template <class Q> size_t erase(const Q& k) { auto it = find(k); if (it == end()) return 0; l().erase(it); return 1; }
 private:
  L& l() const { if (!l_) l_.reset(new L); return *l_; }
  mutable std::unique_ptr<L> l_;
};
namespace util {
struct MessageDifferencer { template <class M> static bool Equals(const M& a, const M& b) { return a.vequals(b); } template <class M> static bool Equivalent(const M& a, const M& b) { return a.vequals(b); } };
}
struct TextFormat { template <class M> static bool PrintToString(const M& m, std::string* s) { *s = m.DebugString(); return true; } };
}  // namespace protobuf
}  // namespace google
#endif
