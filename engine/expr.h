// Hash-consed bit-vector expressions with local simplification, evaluation
// under a model, and lowering to Z3.
#pragma once
#include <z3.h>

#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <string>
#include <unordered_set>
#include <vector>

enum class EK : uint8_t {
  Const, Var, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
  Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
  EK op;
  uint8_t w;        // width in bits, 1..64
  uint32_t id;
  uint64_t val;     // Const: value; Var: var index; Extract: low bit
  Expr* k[3];
  Z3_ast zv = nullptr;  // bit-vector lowering
  Z3_ast zb = nullptr;  // boolean lowering (w == 1)
  uint64_t evalEpoch = 0;
  uint64_t evalVal = 0;
  const std::vector<uint32_t>* vs = nullptr;  // variables, ascending
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; bool undef; };

struct Model {
  uint64_t uid;
  std::vector<uint64_t> vals;  // indexed by var
  int ref = 0;
};

class ExprPool {
 public:
  std::vector<VarInfo> vars;
  std::vector<Expr*> varExprs;
  uint64_t nodes = 0;

  Expr* c(unsigned w, uint64_t v) { return mk(EK::Const, w, v & maskw(w)); }
  Expr* t() { return c(1, 1); }
  Expr* f() { return c(1, 0); }
  Expr* var(const std::string& name, unsigned w, bool undef = false) {
    vars.push_back({name, w, undef});
    Expr* e = mk(EK::Var, w, vars.size() - 1);
    varExprs.push_back(e);
    return e;
  }
  static bool isC(Expr* e) { return e->op == EK::Const; }
  static bool isTrue(Expr* e) { return e->op == EK::Const && e->w == 1 && e->val == 1; }
  static bool isFalse(Expr* e) { return e->op == EK::Const && e->w == 1 && e->val == 0; }

  // the variables of an expression, ascending
  const std::vector<uint32_t>& varsOf(Expr* e) {
    if (e->vs) return *e->vs;
    static const std::vector<uint32_t> none;
    if (e->op == EK::Const) { e->vs = &none; return none; }
    if (e->op == EK::Var) { e->vs = new std::vector<uint32_t>{(uint32_t)e->val}; return *e->vs; }
    const std::vector<uint32_t>* best = nullptr;
    std::vector<uint32_t> u;
    for (int i = 0; i < 3 && e->k[i]; i++) {
      const auto& a = varsOf(e->k[i]);
      if (i == 0) { u = a; best = &a; continue; }
      if (std::includes(u.begin(), u.end(), a.begin(), a.end())) continue;
      std::vector<uint32_t> r;
      std::set_union(u.begin(), u.end(), a.begin(), a.end(), std::back_inserter(r));
      if (r.size() == a.size()) best = &a; else best = nullptr;
      u = std::move(r);
    }
    e->vs = best ? best : new std::vector<uint32_t>(std::move(u));
    return *e->vs;
  }
  Expr* Not(Expr* a) {
    assert(a->w == 1);
    switch (a->op) {
      case EK::Const: return c(1, !a->val);
      case EK::Not: return a->k[0];
      case EK::Ult: return Ule(a->k[1], a->k[0]);
      case EK::Ule: return Ult(a->k[1], a->k[0]);
      case EK::Slt: return Sle(a->k[1], a->k[0]);
      case EK::Sle: return Slt(a->k[1], a->k[0]);
      default: return mk(EK::Not, 1, 0, a);
    }
  }

  static uint64_t fold(EK op, unsigned w, uint64_t a, uint64_t b) {
    switch (op) {
      case EK::Add: return (a + b) & maskw(w);
      case EK::Sub: return (a - b) & maskw(w);
      case EK::Mul: return (a * b) & maskw(w);
      case EK::UDiv: return b ? a / b : maskw(w);
      case EK::URem: return b ? a % b : a;
      case EK::SDiv: {
        int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return x < 0 ? 1 : maskw(w);
        if (y == -1) return (uint64_t)(-(uint64_t)x) & maskw(w);
        return (uint64_t)(x / y) & maskw(w);
      }
      case EK::SRem: {
        int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & maskw(w);
      }
      case EK::And: return a & b;
      case EK::Or: return a | b;
      case EK::Xor: return a ^ b;
      case EK::Shl: return b >= w ? 0 : (a << b) & maskw(w);
      case EK::LShr: return b >= w ? 0 : (a >> b);
      case EK::AShr: {
        int64_t x = sextw(a, w);
        return (uint64_t)(x >> (b >= w ? w - 1 : b)) & maskw(w);
      }
      case EK::Eq: return a == b;
      case EK::Ult: return a < b;
      case EK::Ule: return a <= b;
      case EK::Slt: return sextw(a, w) < sextw(b, w);
      case EK::Sle: return sextw(a, w) <= sextw(b, w);
      default: abort();
    }
  }

  Expr* Add(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (w == 1) return Xor(a, b);
    if (isC(a) && isC(b)) return c(w, a->val + b->val);
    if (isC(a)) std::swap(a, b);  // constant on the right
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->op == EK::Add && isC(a->k[1])) return Add(a->k[0], c(w, a->k[1]->val + b->val));
      if (a->op == EK::Ite && isC(a->k[1]) && isC(a->k[2]))
        return Ite(a->k[0], Add(a->k[1], b), Add(a->k[2], b));
      if (a->op == EK::Sub && isC(a->k[0])) return Sub(c(w, a->k[0]->val + b->val), a->k[1]);
      return mk(EK::Add, w, 0, a, b);
    }
    // pull constants out
    if (a->op == EK::Add && isC(a->k[1])) return Add(Add(a->k[0], b), a->k[1]);
    if (b->op == EK::Add && isC(b->k[1])) return Add(Add(a, b->k[0]), b->k[1]);
    // (x - y) + y  => x
    if (a->op == EK::Sub && a->k[1] == b) return a->k[0];
    if (b->op == EK::Sub && b->k[1] == a) return b->k[0];
    if (a->id > b->id) std::swap(a, b);
    return mk(EK::Add, w, 0, a, b);
  }
  Expr* Sub(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (w == 1) return Xor(a, b);
    if (a == b) return c(w, 0);
    if (isC(b)) return Add(a, c(w, 0 - b->val));
    if (isC(a) && b->op == EK::Add && isC(b->k[1])) return Sub(c(w, a->val - b->k[1]->val), b->k[0]);
    if (isC(a) && b->op == EK::Sub && isC(b->k[0])) return Add(b->k[1], c(w, a->val - b->k[0]->val));
    // (x + c1) - (y + c2)
    uint64_t ca = 0, cb = 0;
    Expr *xa = a, *xb = b;
    if (a->op == EK::Add && isC(a->k[1])) { ca = a->k[1]->val; xa = a->k[0]; }
    if (b->op == EK::Add && isC(b->k[1])) { cb = b->k[1]->val; xb = b->k[0]; }
    if (xa == xb) return c(w, ca - cb);
    if (ca || cb) return Add(Sub(xa, xb), c(w, ca - cb));
    // (x + y) - y => x ; (x+y) - x => y
    if (xa->op == EK::Add) {
      if (xa->k[0] == xb) return xa->k[1];
      if (xa->k[1] == xb) return xa->k[0];
    }
    // x - (x - y) => y
    if (xb->op == EK::Sub && xb->k[0] == xa) return xb->k[1];
    return mk(EK::Sub, w, 0, xa, xb);
  }
  Expr* Mul(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return c(w, a->val * b->val);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if (a->op == EK::Ite && isC(a->k[1]) && isC(a->k[2]))
        return Ite(a->k[0], Mul(a->k[1], b), Mul(a->k[2], b));
      if (a->op == EK::Add && isC(a->k[1])) return Add(Mul(a->k[0], b), c(w, a->k[1]->val * b->val));
      if (a->op == EK::Mul && isC(a->k[1])) return Mul(a->k[0], c(w, a->k[1]->val * b->val));
    }
    return mk(EK::Mul, w, 0, a, b);
  }
  Expr* And(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return a;
    if (isC(a) && isC(b)) return c(w, a->val & b->val);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == maskw(w)) return a;
      if ((b->val & (b->val + 1)) == 0) {  // low mask
        unsigned n = 64 - __builtin_clzll(b->val);
        return ZExt(Extract(a, 0, n), w);
      }
      if (a->op == EK::And && isC(a->k[1])) return And(a->k[0], c(w, a->k[1]->val & b->val));
      if (a->op == EK::ZExt && (b->val & maskw(a->k[0]->w)) != b->val)
        return And(a, c(w, b->val & maskw(a->k[0]->w)));
      return mk(EK::And, w, 0, a, b);
    }
    if (w == 1 && (isNotOf(a, b))) return c(1, 0);
    if (a->id > b->id) std::swap(a, b);
    return mk(EK::And, w, 0, a, b);
  }
  Expr* Or(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return a;
    if (isC(a) && isC(b)) return c(w, a->val | b->val);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val == maskw(w)) return b;
    } else {
      if (w == 1 && isNotOf(a, b)) return c(1, 1);
      // disjoint byte-assembly: (zext x) | (y << k)
      Expr* r = orConcat(a, b);
      if (!r) r = orConcat(b, a);
      if (r) return r;
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(EK::Or, w, 0, a, b);
  }
  bool isNotOf(Expr* a, Expr* b) {
    return (a->op == EK::Not && a->k[0] == b) || (b->op == EK::Not && b->k[0] == a);
  }
  // zext(x) | concat(y, 0_k) with width(x) <= k
  Expr* orConcat(Expr* z, Expr* s) {
    if (s->op != EK::Concat || !isC(s->k[1]) || s->k[1]->val != 0) return nullptr;
    unsigned kz = s->k[1]->w;
    if (z->op != EK::ZExt || z->k[0]->w > kz) return nullptr;
    return Concat(s->k[0], ZExt(z->k[0], kz));
  }
  Expr* Xor(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return c(w, 0);
    if (isC(a) && isC(b)) return c(w, a->val ^ b->val);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (w == 1) return Not(a);
      if (b->val == maskw(w)) return Sub(b, a);
      if (a->op == EK::ZExt && a->k[0]->w == 1 && b->val == 1) return ZExt(Not(a->k[0]), w);
    }
    if (w == 1) {
      if (a->op == EK::Not) return Not(Xor(a->k[0], b));
      if (b->op == EK::Not) return Not(Xor(a, b->k[0]));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(EK::Xor, w, 0, a, b);
  }
  Expr* Shl(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return c(w, 0);
      if (isC(a)) return c(w, a->val << b->val);
      return Concat(Extract(a, 0, w - b->val), c(b->val, 0));
    }
    return mk(EK::Shl, w, 0, a, b);
  }
  Expr* LShr(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return c(w, 0);
      return ZExt(Extract(a, b->val, w - b->val), w);
    }
    return mk(EK::LShr, w, 0, a, b);
  }
  Expr* AShr(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) {
      if (b->val == 0) return a;
      unsigned s = b->val >= w ? w - 1 : b->val;
      if (isC(a)) return c(w, fold(EK::AShr, w, a->val, s));
      return SExt(Extract(a, s, w - s), w);
    }
    return mk(EK::AShr, w, 0, a, b);
  }
  Expr* Div(EK op, Expr* a, Expr* b) {
    if (isC(a) && isC(b)) return c(a->w, fold(op, a->w, a->val, b->val));
    if (isC(b) && b->val == 1 && (op == EK::UDiv || op == EK::SDiv)) return a;
    if (isC(b) && op == EK::UDiv && (b->val & (b->val - 1)) == 0 && b->val)
      return LShr(a, c(a->w, __builtin_ctzll(b->val)));
    if (isC(b) && op == EK::URem && (b->val & (b->val - 1)) == 0 && b->val)
      return And(a, c(a->w, b->val - 1));
    return mk(op, a->w, 0, a, b);
  }
  Expr* Eq(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return t();
    if (isC(a) && isC(b)) return c(1, a->val == b->val);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (w == 1) return b->val ? a : Not(a);
      switch (a->op) {
        case EK::Add:
          if (isC(a->k[1])) return Eq(a->k[0], c(w, b->val - a->k[1]->val));
          break;
        case EK::Xor:
          if (isC(a->k[1])) return Eq(a->k[0], c(w, b->val ^ a->k[1]->val));
          break;
        case EK::Sub:
          return Eq(a->k[0], Add(a->k[1], b));
        case EK::ZExt:
          if (b->val & ~maskw(a->k[0]->w)) return f();
          return Eq(a->k[0], c(a->k[0]->w, b->val));
        case EK::SExt: {
          uint64_t lo = b->val & maskw(a->k[0]->w);
          if (((uint64_t)sextw(lo, a->k[0]->w) & maskw(w)) != b->val) return f();
          return Eq(a->k[0], c(a->k[0]->w, lo));
        }
        case EK::Concat: {
          unsigned lw = a->k[1]->w;
          return And(Eq(a->k[0], c(a->k[0]->w, b->val >> lw)), Eq(a->k[1], c(lw, b->val)));
        }
        case EK::Ite:
          if (isC(a->k[1]) || isC(a->k[2]))
            return Ite(a->k[0], Eq(a->k[1], b), Eq(a->k[2], b));
          break;
        case EK::Extract:    // the high bits
          if (a->val && a->val + w == a->k[0]->w && w > 1)
            return inRange(a->k[0], a->k[0]->w, b->val << a->val, 1ull << a->val);
          break;
        default: break;
      }
      return mk(EK::Eq, 1, 0, a, b);
    }
    uint64_t ca = 0, cb = 0;
    Expr *xa = a, *xb = b;
    if (w > 1) {
      if (a->op == EK::Add && isC(a->k[1])) { ca = a->k[1]->val; xa = a->k[0]; }
      if (b->op == EK::Add && isC(b->k[1])) { cb = b->k[1]->val; xb = b->k[0]; }
      if (xa == xb) return c(1, ((ca - cb) & maskw(w)) == 0);
      if (a->op == EK::ZExt && b->op == EK::ZExt && a->k[0]->w == b->k[0]->w)
        return Eq(a->k[0], b->k[0]);
    }
    if (w == 1) {
      if (a->op == EK::Not && b->op == EK::Not) return Eq(a->k[0], b->k[0]);
      if (isNotOf(a, b)) return f();
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(EK::Eq, 1, 0, a, b);
  }
  static uint64_t umax(Expr* e, int d = 4) {
    switch (e->op) {
      case EK::Const: return e->val;
      case EK::ZExt: return d ? umax(e->k[0], d - 1) : maskw(e->k[0]->w);
      case EK::Ite: if (d) { uint64_t a = umax(e->k[1], d - 1), b = umax(e->k[2], d - 1); return a > b ? a : b; } break;
      case EK::And: if (d) { uint64_t a = umax(e->k[0], d - 1), b = umax(e->k[1], d - 1); return a < b ? a : b; } break;
      case EK::Add: if (d) {
        uint64_t a = umax(e->k[0], d - 1), b = umax(e->k[1], d - 1), s;
        if (!__builtin_add_overflow(a, b, &s) && s <= maskw(e->w)) return s;
      } break;
      default: break;
    }
    return maskw(e->w);
  }
  // x in [lo, lo + n) modulo 2^w, n != 0
  Expr* inRange(Expr* x, unsigned w, uint64_t lo, uint64_t n) {
    lo &= maskw(w);
    uint64_t hi = (lo + n) & maskw(w);
    if (lo == 0) return Ult(x, c(w, n));
    if (hi == 0) return Ule(c(w, lo), x);
    if (hi > lo) return And(Ule(c(w, lo), x), Ult(x, c(w, hi)));
    return Or(Ule(c(w, lo), x), Ult(x, c(w, hi)));
  }
  Expr* Ult(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return f();
    if (isC(a) && isC(b)) return c(1, a->val < b->val);
    if (isC(b)) {
      if (b->val == 0) return f();
      if (b->val == 1) return Eq(a, c(w, 0));
      if (umax(a) < b->val) return t();
      if (a->op == EK::Add && isC(a->k[1])) return inRange(a->k[0], w, 0 - a->k[1]->val, b->val);
      if (a->op == EK::ZExt) return Ult(a->k[0], c(a->k[0]->w, b->val));
      if (a->op == EK::Extract && a->val && a->val + w == a->k[0]->w) return Ult(a->k[0], c(a->k[0]->w, b->val << a->val));
      if (a->op == EK::Ite && isC(a->k[1]) && isC(a->k[2]))
        return Ite(a->k[0], Ult(a->k[1], b), Ult(a->k[2], b));
    }
    if (isC(a)) {
      if (a->val == maskw(w)) return f();
      if (umax(b) <= a->val) return f();
      if (b->op == EK::Add && isC(b->k[1])) return Not(inRange(b->k[0], w, 0 - b->k[1]->val, a->val + 1));
      if (b->op == EK::ZExt) return Ult(c(b->k[0]->w, a->val), b->k[0]);
      if (b->op == EK::Extract && b->val && b->val + w == b->k[0]->w) return Not(Ult(b->k[0], c(b->k[0]->w, (a->val + 1) << b->val)));
      if (b->op == EK::Ite && isC(b->k[1]) && isC(b->k[2]))
        return Ite(b->k[0], Ult(a, b->k[1]), Ult(a, b->k[2]));
    }
    if (a->op == EK::ZExt && b->op == EK::ZExt && a->k[0]->w == b->k[0]->w)
      return Ult(a->k[0], b->k[0]);
    if (w == 1) return And(Not(a), b);
    return mk(EK::Ult, 1, 0, a, b);
  }
  Expr* Ule(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return t();
    if (isC(a) && isC(b)) return c(1, a->val <= b->val);
    if (isC(b)) {
      if (b->val == maskw(w)) return t();
      return Ult(a, c(w, b->val + 1));
    }
    if (isC(a)) {
      if (a->val == 0) return t();
      return Ult(c(w, a->val - 1), b);
    }
    if (a->op == EK::ZExt && b->op == EK::ZExt && a->k[0]->w == b->k[0]->w)
      return Ule(a->k[0], b->k[0]);
    if (w == 1) return Or(Not(a), b);
    return mk(EK::Ule, 1, 0, a, b);
  }
  Expr* Slt(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return f();
    if (isC(a) && isC(b)) return c(1, fold(EK::Slt, w, a->val, b->val));
    if (a->op == EK::ZExt && b->op == EK::ZExt && a->k[0]->w == b->k[0]->w)
      return Ult(a->k[0], b->k[0]);
    if (a->op == EK::ZExt && isC(b)) {
      if (sextw(b->val, w) <= 0) return f();
      return Ult(a, b);
    }
    if (b->op == EK::ZExt && isC(a)) {
      if (sextw(a->val, w) < 0) return t();
      return Ult(a, b);
    }
    return mk(EK::Slt, 1, 0, a, b);
  }
  Expr* Sle(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return t();
    if (isC(a) && isC(b)) return c(1, fold(EK::Sle, w, a->val, b->val));
    if (a->op == EK::ZExt && b->op == EK::ZExt && a->k[0]->w == b->k[0]->w)
      return Ule(a->k[0], b->k[0]);
    if (a->op == EK::ZExt && isC(b)) {
      if (sextw(b->val, w) < 0) return f();
      return Ule(a, b);
    }
    if (b->op == EK::ZExt && isC(a)) {
      if (sextw(a->val, w) <= 0) return t();
      return Ule(a, b);
    }
    return mk(EK::Sle, 1, 0, a, b);
  }
  Expr* Ite(Expr* cnd, Expr* a, Expr* b) {
    if (isTrue(cnd)) return a;
    if (isFalse(cnd)) return b;
    if (a == b) return a;
    if (cnd->op == EK::Not) return Ite(cnd->k[0], b, a);
    if (a->w == 1) {
      if (isTrue(a)) return Or(cnd, b);
      if (isFalse(a)) return And(Not(cnd), b);
      if (isTrue(b)) return Or(Not(cnd), a);
      if (isFalse(b)) return And(cnd, a);
    }
    if (a->op == EK::Ite && a->k[0] == cnd) return Ite(cnd, a->k[1], b);
    if (b->op == EK::Ite && b->k[0] == cnd) return Ite(cnd, a, b->k[2]);
    if (a->w > 1 && isC(a) && isC(b) && a->val == 1 && b->val == 0) return ZExt(cnd, a->w);
    return mk(EK::Ite, a->w, 0, cnd, a, b);
  }
  Expr* Extract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    assert(lo + w <= e->w);
    switch (e->op) {
      case EK::Const: return c(w, e->val >> lo);
      case EK::Extract: return Extract(e->k[0], e->val + lo, w);
      case EK::Concat: {
        unsigned lw = e->k[1]->w;
        if (lo + w <= lw) return Extract(e->k[1], lo, w);
        if (lo >= lw) return Extract(e->k[0], lo - lw, w);
        return Concat(Extract(e->k[0], 0, lo + w - lw), Extract(e->k[1], lo, lw - lo));
      }
      case EK::ZExt: {
        unsigned iw = e->k[0]->w;
        if (lo >= iw) return c(w, 0);
        if (lo + w <= iw) return Extract(e->k[0], lo, w);
        return ZExt(Extract(e->k[0], lo, iw - lo), w);
      }
      case EK::SExt: {
        unsigned iw = e->k[0]->w;
        if (lo + w <= iw) return Extract(e->k[0], lo, w);
        if (lo == 0) return SExt(e->k[0], w);
        break;
      }
      case EK::And: return And(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case EK::Or: return Or(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case EK::Xor: return Xor(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case EK::Ite:
        if (isC(e->k[1]) || isC(e->k[2]))
          return Ite(e->k[0], Extract(e->k[1], lo, w), Extract(e->k[2], lo, w));
        break;
      default: break;
    }
    return mk(EK::Extract, w, lo, e);
  }
  Expr* Concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return c(w, (hi->val << lo->w) | lo->val);
    if (isC(hi) && hi->val == 0) return ZExt(lo, w);
    if (hi->op == EK::Extract && lo->op == EK::Extract && hi->k[0] == lo->k[0] &&
        hi->val == lo->val + lo->w)
      return Extract(hi->k[0], lo->val, w);
    // extract(x, k, n) ++ x where lo is the low part itself
    if (hi->op == EK::Extract && hi->k[0] == lo && 0) return nullptr;
    // zext(extract) ++ extract
    if (hi->op == EK::ZExt) {
      Expr* in = hi->k[0];
      return ZExt(Concat(in, lo), w);
    }
    if (lo->op == EK::Concat && hi->op == EK::Extract && lo->k[0]->op == EK::Extract &&
        hi->k[0] == lo->k[0]->k[0] && hi->val == lo->k[0]->val + lo->k[0]->w)
      return Concat(Concat(hi, lo->k[0]), lo->k[1]);
    return mk(EK::Concat, w, 0, hi, lo);
  }
  Expr* ZExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    assert(w > e->w);
    if (isC(e)) return c(w, e->val);
    if (e->op == EK::ZExt) return ZExt(e->k[0], w);
    if (e->op == EK::Ite && isC(e->k[1]) && isC(e->k[2]))
      return mk(EK::Ite, w, 0, e->k[0], c(w, e->k[1]->val), c(w, e->k[2]->val));
    return mk(EK::ZExt, w, 0, e);
  }
  Expr* SExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return c(w, (uint64_t)sextw(e->val, e->w));
    if (e->op == EK::SExt) return SExt(e->k[0], w);
    if (e->op == EK::ZExt) return ZExt(e->k[0], w);
    return mk(EK::SExt, w, 0, e);
  }

  // ---- evaluation under a model -----------------------------------------
  uint64_t eval(Expr* e, const Model* m) {
    if (e->op == EK::Const) return e->val;
    if (e->evalEpoch == m->uid) return e->evalVal;
    uint64_t r = 0;
    switch (e->op) {
      case EK::Var: r = e->val < m->vals.size() ? (m->vals[e->val] & maskw(e->w)) : 0; 
        if (e->val >= m->vals.size()) return r;  // not memoised: the model may grow
        break;
      case EK::Not: r = !eval(e->k[0], m); break;
      case EK::Ite: r = eval(e->k[0], m) ? eval(e->k[1], m) : eval(e->k[2], m); break;
      case EK::Extract: r = (eval(e->k[0], m) >> e->val) & maskw(e->w); break;
      case EK::Concat: r = (eval(e->k[0], m) << e->k[1]->w) | eval(e->k[1], m); break;
      case EK::ZExt: r = eval(e->k[0], m); break;
      case EK::SExt: r = (uint64_t)sextw(eval(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
      default: r = fold(e->op, e->k[0]->w, eval(e->k[0], m), eval(e->k[1], m)); break;
    }
    e->evalEpoch = m->uid;
    e->evalVal = r;
    return r;
  }

  // ---- Z3 lowering --------------------------------------------------------
  Z3_context ctx = nullptr;
  Z3_sort bvs[65] = {};
  Z3_sort sortw(unsigned w) {
    if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(ctx, w);
    return bvs[w];
  }
  Z3_ast zb(Expr* e) {
    assert(e->w == 1);
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->op) {
      case EK::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case EK::Not: r = Z3_mk_not(ctx, zb(e->k[0])); break;
      case EK::And: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
      case EK::Or: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
      case EK::Xor: r = Z3_mk_xor(ctx, zb(e->k[0]), zb(e->k[1])); break;
      case EK::Eq:
        if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, zb(e->k[0]), zb(e->k[1]));
        else r = Z3_mk_eq(ctx, zv(e->k[0]), zv(e->k[1]));
        break;
      case EK::Ult: r = Z3_mk_bvult(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Ule: r = Z3_mk_bvule(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Slt: r = Z3_mk_bvslt(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Sle: r = Z3_mk_bvsle(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Ite: r = Z3_mk_ite(ctx, zb(e->k[0]), zb(e->k[1]), zb(e->k[2])); break;
      default: r = Z3_mk_eq(ctx, zv(e), Z3_mk_unsigned_int64(ctx, 1, sortw(1))); break;
    }
    return e->zb = r;
  }
  Z3_ast zv(Expr* e) {
    if (e->zv) return e->zv;
    Z3_ast r = nullptr;
    switch (e->op) {
      case EK::Const: r = Z3_mk_unsigned_int64(ctx, e->val, sortw(e->w)); break;
      case EK::Var: {
        std::string n = "v" + std::to_string(e->val);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sortw(e->w));
        break;
      }
      case EK::Not: case EK::Eq: case EK::Ult: case EK::Ule: case EK::Slt: case EK::Sle:
        r = Z3_mk_ite(ctx, zb(e), Z3_mk_unsigned_int64(ctx, 1, sortw(1)),
                      Z3_mk_unsigned_int64(ctx, 0, sortw(1)));
        break;
      case EK::Add: r = Z3_mk_bvadd(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Sub: r = Z3_mk_bvsub(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Mul: r = Z3_mk_bvmul(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::UDiv: r = Z3_mk_bvudiv(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::SDiv: r = Z3_mk_bvsdiv(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::URem: r = Z3_mk_bvurem(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::SRem: r = Z3_mk_bvsrem(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::And: r = Z3_mk_bvand(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Or: r = Z3_mk_bvor(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Xor: r = Z3_mk_bvxor(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Shl: r = Z3_mk_bvshl(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::LShr: r = Z3_mk_bvlshr(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::AShr: r = Z3_mk_bvashr(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Ite: r = Z3_mk_ite(ctx, zb(e->k[0]), zv(e->k[1]), zv(e->k[2])); break;
      case EK::Concat: r = Z3_mk_concat(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case EK::Extract: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, zv(e->k[0])); break;
      case EK::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, zv(e->k[0])); break;
      case EK::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, zv(e->k[0])); break;
    }
    return e->zv = r;
  }

 private:
  struct H {
    size_t operator()(const Expr* e) const {
      uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w;
      h = (h ^ e->val) * 0xff51afd7ed558ccdull;
      for (int i = 0; i < 3; i++) h = (h ^ (h >> 29) ^ (uint64_t)(e->k[i] ? e->k[i]->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull;
      return h ^ (h >> 32);
    }
  };
  struct EQ {
    bool operator()(const Expr* a, const Expr* b) const {
      return a->op == b->op && a->w == b->w && a->val == b->val && a->k[0] == b->k[0] &&
             a->k[1] == b->k[1] && a->k[2] == b->k[2];
    }
  };
  std::unordered_set<Expr*, H, EQ> table_;
  Expr* mk(EK op, unsigned w, uint64_t val, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    Expr tmp;
    tmp.op = op; tmp.w = w; tmp.val = val; tmp.k[0] = a; tmp.k[1] = b; tmp.k[2] = d;
    auto it = table_.find(&tmp);
    if (it != table_.end()) return *it;
    Expr* e = new Expr(tmp);
    e->id = nodes++;
    table_.insert(e);
    return e;
  }
};
