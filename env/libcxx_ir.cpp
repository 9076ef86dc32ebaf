// Out-of-line parts of the C++ runtime library for the symbolic executor (never linked natively).
#include <stdexcept>
#include <system_error>
#include <new>
#include <functional>
#include <map>
#include <list>
#include <typeinfo>
#include <exception>
#include <chrono>
#include <thread>
#include <string.h>
#include <stdlib.h>
#include "sym.h"
extern "C" const char *model_strerror(int);
static char *dup_(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
namespace std {
__cow_string::__cow_string() { _M_p = dup_("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = dup_(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dup_(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
#define ERR(C, B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {} 
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
ERR(domain_error, logic_error) ERR(invalid_argument, logic_error) ERR(length_error, logic_error) ERR(out_of_range, logic_error)
ERR(range_error, runtime_error) ERR(overflow_error, runtime_error) ERR(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
}
struct fx_cat : error_category { const char *name() const noexcept override { return "system"; } string message(int) const override { return "system error"; } };
struct fx_gcat : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "generic error"; } };
inline namespace _V2 {
alignas(8) static char scat[sizeof(fx_cat)], gcat[sizeof(fx_gcat)];
const error_category &system_category() noexcept { static fx_cat *c = new (scat) fx_cat; return *c; }
const error_category &generic_category() noexcept { static fx_gcat *c = new (gcat) fx_gcat; return *c; }
}
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
int uncaught_exceptions() noexcept { return 0; }
bool uncaught_exception() noexcept { return false; }

// red-black tree
static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  auto *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto *xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      auto *y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      auto *y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto *&root = h._M_parent; auto *&leftmost = h._M_left; auto *&rightmost = h._M_right;
  auto *y = z; _Rb_tree_node_base *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        auto *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y; }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 0x100000001b3ull; return h; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
}
namespace std { thread::_State::~_State() {} unsigned thread::hardware_concurrency() noexcept { return 2; } }
