// Models of the compiled (non-header) parts of libstdc++ / libc that the encoded
// program links against.  They are compiled to IR and executed symbolically
// together with the code under test, so they are ordinary C++.
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <cstdint>

namespace std {
static _Rb_tree_node_base* inc_(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc_(x); }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc_(const_cast<_Rb_tree_node_base*>(x)); }
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }

static void rotl_(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr_(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl_(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr_(xpp, root);
      }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr_(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl_(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base*& leftmost = header._M_left;
  _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = 0;
  _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl_(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr_(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl_(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr_(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl_(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr_(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
static const unsigned long primes_[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  unsigned i = 0;
  while (i < 18 && primes_[i] < n) i++;
  const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = primes_[i];
  return primes_[i];
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    std::size_t want = n_elt + n_ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want >= n_bkt) {
      std::size_t m = want + 1;
      if (m < n_bkt * 2) m = n_bkt * 2;
      return {true, _M_next_bkt(m)};
    }
    const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = n_bkt;
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
}  // namespace std

extern "C" {
char __libc_single_threaded = 1;

static int isspace_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long conv_(const char* s, char** end, int base, int sgn) {
  const char* p = s;
  while (isspace_((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0;
  int any = 0, over = 0;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    unsigned long long lim = ~0ull / base;
    if (v > lim || (v == lim && (unsigned long long)d > ~0ull % base)) over = 1;
    v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  if (sgn) {
    unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1;
    if (over || v > lim) { errno = ERANGE; return lim; }
  } else if (over) { errno = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
unsigned long long m_strtoull(const char* s, char** e, int b) __asm__("strtoull");
unsigned long long m_strtoull(const char* s, char** e, int b) { return conv_(s, e, b, 0); }
unsigned long long m___isoc23_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull");
unsigned long long m___isoc23_strtoull(const char* s, char** e, int b) { return conv_(s, e, b, 0); }
unsigned long m_strtoul(const char* s, char** e, int b) __asm__("strtoul");
unsigned long m_strtoul(const char* s, char** e, int b) { return conv_(s, e, b, 0); }
unsigned long m___isoc23_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul");
unsigned long m___isoc23_strtoul(const char* s, char** e, int b) { return conv_(s, e, b, 0); }
long long m_strtoll(const char* s, char** e, int b) __asm__("strtoll");
long long m_strtoll(const char* s, char** e, int b) { return conv_(s, e, b, 1); }
long long m___isoc23_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll");
long long m___isoc23_strtoll(const char* s, char** e, int b) { return conv_(s, e, b, 1); }
long m_strtol(const char* s, char** e, int b) __asm__("strtol");
long m_strtol(const char* s, char** e, int b) { return conv_(s, e, b, 1); }
long m___isoc23_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol");
long m___isoc23_strtol(const char* s, char** e, int b) { return conv_(s, e, b, 1); }
int isspace(int c) { return isspace_(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
extern "C" { int se_exact_text = 0; }
