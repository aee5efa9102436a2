// C++ definitions of the small parts of libstdc++ that live in its shared object and not in its headers,
// so that harness and library code which uses them can be executed symbolically. Linked on demand into the
// harness bitcode (only what is referenced); never part of a native replay, where the real library is used.
// The search trees are not balanced: their observable behaviour is the same.
#include <exception>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <unordered_map>
#include <mutex>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <system_error>
#include <optional>
#include <variant>

namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* s;  // what takes z's place
  auto put = [&](_Rb_tree_node_base* from, _Rb_tree_node_base* to) {
    if (h._M_parent == from) h._M_parent = to;
    else if (from->_M_parent->_M_left == from) from->_M_parent->_M_left = to;
    else from->_M_parent->_M_right = to;
    if (to) to->_M_parent = from->_M_parent;
  };
  if (h._M_left == z) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
  if (!z->_M_left) put(z, z->_M_right);
  else if (!z->_M_right) put(z, z->_M_left);
  else {
    s = _Rb_tree_node_base::_S_minimum(z->_M_right);
    if (s->_M_parent != z) {
      put(s, s->_M_right);
      s->_M_right = z->_M_right;
      s->_M_right->_M_parent = s;
    }
    put(z, s);
    s->_M_left = z->_M_left;
    s->_M_left->_M_parent = s;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base a = x, b = y;
  if (ey) { x._M_next = x._M_prev = &x; } else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (ex) { y._M_next = y._M_prev = &y; } else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned short primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
  for (unsigned short p : primes) if (p >= n) { _M_next_resize = static_cast<size_t>(p * static_cast<double>(_M_max_load_factor)); return p; }
  _M_next_resize = n | 1; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni <= _M_next_resize) return {false, 0};
  size_t need = static_cast<size_t>((ne + ni) / static_cast<double>(_M_max_load_factor)) + 1;
  if (need > nb || _M_next_resize == 0) { size_t g = nb * 2; if (_M_next_resize == 0 && need < 11) need = 11; return {true, _M_next_bkt(need > g ? need : g)}; }
  _M_next_resize = static_cast<size_t>(nb * static_cast<double>(_M_max_load_factor));
  return {false, 0};
}
}  // namespace __detail

// exception classes with a message
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = static_cast<char*>(::operator new(n + 9)); unsigned* c = reinterpret_cast<unsigned*>(p); *c = 1; memcpy(p + 8, s, n); p[8 + n] = 0; _M_p = p + 8; }
__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; if (_M_p) ++*reinterpret_cast<unsigned*>(const_cast<char*>(_M_p) - 8); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string::~__cow_string() { if (_M_p && --*reinterpret_cast<unsigned*>(const_cast<char*>(_M_p) - 8) == 0) ::operator delete(const_cast<char*>(_M_p) - 8); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (o._M_p) ++*reinterpret_cast<unsigned*>(const_cast<char*>(o._M_p) - 8); this->~__cow_string(); _M_p = o._M_p; return *this; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { if (this != &o) { this->~__cow_string(); _M_p = o._M_p; o._M_p = nullptr; } return *this; }

#define BASE(C)                                                                        \
  C::C(const std::string& s) : _M_msg(s) {}                                            \
  C::C(const char* s) : _M_msg(s, __builtin_strlen(s)) {}                              \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {}                        \
  C::C(C&& o) noexcept : exception(static_cast<exception&&>(o)), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {} \
  C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; }            \
  C& C::operator=(C&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; } \
  C::~C() noexcept {}                                                                  \
  const char* C::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
BASE(logic_error)
BASE(runtime_error)
#define DER(C, B)                         \
  C::C(const std::string& s) : B(s) {}    \
  C::C(const char* s) : B(s) {}           \
  C::~C() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}  // namespace std

void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new[](n); } catch (...) { return nullptr; } }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return ::operator new(n, a); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { ::operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { ::operator delete[](p); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { ::operator delete(p, a); }

extern "C" {
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_once(pthread_once_t* c, void (*f)()) {
  if (*c == 0) { f(); *c = 2; }
  return 0;
}
// a header holds the size
void* malloc(size_t n) noexcept {
  char* p = static_cast<char*>(::operator new(n + 16, std::nothrow));
  if (!p) return nullptr;
  *reinterpret_cast<size_t*>(p) = n;
  return p + 16;
}
void* calloc(size_t n, size_t m) noexcept {
  void* p = malloc(n * m);
  if (p) memset(p, 0, n * m);
  return p;
}
void free(void* p) noexcept {
  if (p) ::operator delete(static_cast<char*>(p) - 16);
}
void* realloc(void* p, size_t n) noexcept {
  void* q = malloc(n);
  if (!q) return nullptr;
  if (p) { size_t m = *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16); memcpy(q, p, m < n ? m : n); }
  free(p);
  return q;
}
}
