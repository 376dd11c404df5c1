// IR-only definitions of the out-of-line pieces of libstdc++ the sources use.
#include <list>
#include <memory>
#include <map>
#include <string>
#include <unordered_map>

#include "verif.h"
extern "C" { char __libc_single_threaded = 1; void* __dso_handle = nullptr;
int __cxa_guard_acquire(uint64_t* g) { return !*(char*)g; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
}
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  auto* n = this->_M_next; auto* p = this->_M_prev; p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    auto* tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept {
  auto* t = this;
  do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      auto* a = x._M_next; x._M_next = y._M_next; y._M_next = a;
      a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a;
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
static const size_t kPrimes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : kPrimes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n; return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t m = elt + ins;
    if (_M_next_resize == 0 && m < 11) m = 11;
    if (m >= bkt) return {true, _M_next_bkt(m + 1 > bkt * 2 ? m + 1 : bkt * 2)};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
}  // namespace __detail

// Red-black trees as plain (unbalanced) binary search trees: the order of the
// elements, which is all the interface shows, is the same.
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto*& root = h._M_parent; auto*& lm = h._M_left; auto*& rm = h._M_right;
  if (z == lm) lm = z->_M_right || z->_M_parent != &h || true ? incr(z) : &h;
  if (z == rm) rm = decr(z);
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (root == a) root = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  bool only = root == z && !z->_M_left && !z->_M_right;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (only) { lm = &h; rm = &h; }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
  return h;
}
bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
}  // namespace std
extern "C" int getpid() { return 4242; }
