// Symbolic builds only: C++ definitions of libstdc++ functions that live in the shared library,
// so that code under test (or a rewrite of it) may use the standard containers and utilities.
#ifndef RT_HPP
#define RT_HPP
#include <cstddef>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <typeinfo>
#if __cplusplus >= 201703L
# include <optional>
# include <variant>
#endif
namespace std {
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(char const *m) { throw length_error(m); }
void __throw_logic_error(char const *m) { throw logic_error(m); }
void __throw_out_of_range(char const *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(char const *m, ...) { throw out_of_range(m); }
void __throw_invalid_argument(char const *m) { throw invalid_argument(m); }
void __throw_runtime_error(char const *m) { throw runtime_error(m); }

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  _List_node_base t;
  t._M_next = x._M_next; t._M_prev = x._M_prev;
  if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; } else x._M_next = x._M_prev = &x;
  if (t._M_next != &x) { y._M_next = t._M_next; y._M_prev = t._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else y._M_next = y._M_prev = &y;
}
}
// search tree: insertion rebalances, removal does not (the balance is not observable)
static void rb_rotate(_Rb_tree_node_base *x, _Rb_tree_node_base *&root, bool left) {
  _Rb_tree_node_base *y = left ? x->_M_right : x->_M_left;
  _Rb_tree_node_base *&in = left ? y->_M_left : y->_M_right;
  (left ? x->_M_right : x->_M_left) = in;
  if (in) in->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  in = x;
  x->_M_parent = y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base const *_Rb_tree_increment(_Rb_tree_node_base const *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // the header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base const *_Rb_tree_decrement(_Rb_tree_node_base const *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  _Rb_tree_node_base *&root = h._M_parent;
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *up = x->_M_parent, *g = up->_M_parent;
    bool l = up == g->_M_left;
    _Rb_tree_node_base *u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { up->_M_color = u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
    else {
      if (x == (l ? up->_M_right : up->_M_left)) { x = up; rb_rotate(x, root, l); }
      x->_M_parent->_M_color = _S_black;
      g->_M_color = _S_red;
      rb_rotate(g, root, !l);
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *r;   // what takes the place of z
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    r = z->_M_right;
    while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) {
      r->_M_parent->_M_left = r->_M_right;
      if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right;
      z->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left;
    z->_M_left->_M_parent = r;
  }
  if (h._M_left == z) { _Rb_tree_node_base *m = z->_M_right; if (m) { while (m->_M_left) m = m->_M_left; h._M_left = m; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { _Rb_tree_node_base *m = z->_M_left; if (m) { while (m->_M_right) m = m->_M_right; h._M_right = m; } else h._M_right = z->_M_parent; }
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (r) { r->_M_parent = z->_M_parent; r->_M_color = z->_M_color; }
  if (h._M_parent) h._M_parent->_M_color = _S_black;
  return z;
}
namespace __detail {   // one growth policy is as good as another
struct _Prime_rehash_policy;
}
}
#include <unordered_map>
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 1; _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) { size_t want = n_elt + n_ins; if (want < 11) want = 11; if (want >= n_bkt) return { true, _M_next_bkt(want + 1) }; _M_next_resize = n_bkt; }
  return { false, 0 };
}
}
}
#include <mutex>
namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
nested_exception::~nested_exception() noexcept {}
}
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" int pthread_once(int *o, void (*f)()) { if (__atomic_load_n(o, __ATOMIC_ACQUIRE) != 2) { f(); __atomic_store_n(o, 2, __ATOMIC_RELEASE); } return 0; }
#endif
