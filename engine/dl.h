// Decision procedure for the part of the queries that is difference logic over
// unsigned integers (x - y <= c, with boolean structure): a closed bound matrix
// plus case splits.  Anything it does not understand it treats as a free boolean,
// which keeps "unsatisfiable" sound; "satisfiable" is only answered with a model
// that satisfies every formula.  Everything else is left to Z3.
#pragma once
#include <climits>
#include <unordered_map>
#include <vector>
#include "expr.h"

class DiffLogic {
 public:
  typedef __int128 I;
  ExprPool& P;
  explicit DiffLogic(ExprPool& p) : P(p) {}
  unsigned long splits = 0;

  // 1 satisfiable (vals of the variables in vs are set), 0 unsatisfiable, -1 don't know
  int solve(const std::vector<Expr*>& fs, const std::vector<uint32_t>& vs, const Model* hint, std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    node.assign(P.vars.size(), 0);
    vars.clear();
    vars.push_back(0);
    for (uint32_t v : vs) if (P.vars[v].w > 1) { node[v] = vars.size(); vars.push_back(v); }
    n = vars.size();
    if (n > 48) return -1;
    all = &fs;
    hintModel = hint;
    budget = 400;
    vlist = &vs;
    out = &vals;
    Ctx c;
    c.d.assign(n * n, INF);
    for (unsigned i = 0; i < n; i++) c.d[i * n + i] = 0;
    for (unsigned i = 1; i < n; i++) {
      c.d[i * n + 0] = (I)maskw(P.vars[vars[i]].w);
      c.d[0 * n + i] = 0;
    }
    for (unsigned i = 1; i < n; i++) for (unsigned j = 1; j < n; j++) if (i != j) c.d[i * n + j] = c.d[i * n];
    std::vector<Lit> todo;
    for (size_t i = fs.size(); i-- > 0;) todo.push_back({fs[i], true});
    return run(c, todo);
  }

 private:
  static constexpr I INF = (I)1 << 100;
  struct Lit { Expr* e; bool pos; };
  struct Term { unsigned p, m; I k; };
  struct Ctx {
    std::vector<I> d;
    std::vector<std::pair<Expr*, bool>> atoms;
    std::vector<Lit> later;    // comparisons not yet understood
    std::vector<Lit> ors;      // disjunctions
    std::vector<std::pair<Term, Term>> diseq;
  };
  std::vector<unsigned> node;
  std::vector<uint32_t> vars;
  unsigned n = 0;
  const std::vector<Expr*>* all = nullptr;
  const std::vector<uint32_t>* vlist = nullptr;
  std::vector<std::pair<uint32_t, uint64_t>>* out = nullptr;
  const Model* hintModel = nullptr;
  int budget = 0;

  // x_i - x_j <= c; false on a contradiction
  bool edge(Ctx& c, unsigned i, unsigned j, I k) {
    if (i == j) return k >= 0;
    if (c.d[i * n + j] <= k) return true;
    if (c.d[j * n + i] + k < 0) return false;
    memo.clear();
    for (unsigned a = 0; a < n; a++) {
      I ai = c.d[a * n + i];
      if (ai >= INF) continue;
      ai += k;
      for (unsigned b = 0; b < n; b++) {
        I v = ai + c.d[j * n + b];
        if (v < c.d[a * n + b]) c.d[a * n + b] = v;
      }
    }
    return true;
  }
  // range of a term's integer value
  void range(Ctx& c, const Term& t, I& lo, I& hi) {
    lo = -c.d[t.m * n + t.p] + t.k;
    hi = c.d[t.p * n + t.m] + t.k;
    if (t.p == t.m) lo = hi = t.k;
  }
  // bring the value into [0, 2^w)
  bool wrap(Ctx& c, Term& t, unsigned w) {
    I lo, hi, m = (I)1 << w;
    range(c, t, lo, hi);
    auto fl = [&](I x) { return x >= 0 ? x / m : -((-x + m - 1) / m); };
    I q = fl(lo);
    if (fl(hi) != q) return false;
    t.k -= q * m;
    return true;
  }
  bool combine(const Term& a, const Term& b, int sign, Term& r) {
    unsigned plus[2], minus[2];
    int np = 0, nm = 0;
    auto put = [&](unsigned x, bool pos) { if (x) { if (pos) plus[np++] = x; else minus[nm++] = x; } };
    put(a.p, true);
    put(a.m, false);
    put(b.p, sign > 0);
    put(b.m, sign < 0);
    for (int i = 0; i < np; i++)
      for (int j = 0; j < nm; j++)
        if (plus[i] && plus[i] == minus[j]) { plus[i] = 0; minus[j] = 0; }
    r.p = r.m = 0;
    for (int i = 0; i < np; i++) if (plus[i]) { if (r.p) return false; r.p = plus[i]; }
    for (int i = 0; i < nm; i++) if (minus[i]) { if (r.m) return false; r.m = minus[i]; }
    r.k = sign > 0 ? a.k + b.k : a.k - b.k;
    return true;
  }
  // the integer value of e in [0, 2^w); split: a condition that must be decided first
  bool term(Ctx& c, Expr* e, Term& t, Expr*& split) {
    switch (e->op) {
      case EK::Const: t = {0, 0, (I)e->val}; return true;
      case EK::Var: {
        if (e->w == 1) { split = e; return false; }
        unsigned x = node[e->val];
        I hi = c.d[x * n], lo = -c.d[x];
        if (lo == hi) t = {0, 0, lo}; else t = {x, 0, 0};
        return true;
      }
      case EK::Add: case EK::Sub: {
        Term a, b;
        if (!term(c, e->k[0], a, split) || !term(c, e->k[1], b, split)) return false;
        if (!combine(a, b, e->op == EK::Add ? 1 : -1, t)) return false;
        return wrap(c, t, e->w);
      }
      case EK::ZExt:
        if (e->k[0]->w == 1) return boolTerm(c, e->k[0], t, split);
        return term(c, e->k[0], t, split);
      case EK::SExt: {
        if (e->k[0]->w == 1) return false;
        if (!term(c, e->k[0], t, split)) return false;
        I lo, hi, h = (I)1 << (e->k[0]->w - 1);
        range(c, t, lo, hi);
        if (hi < h) return true;
        if (lo >= h) { t.k += ((I)1 << e->w) - ((I)1 << e->k[0]->w); return true; }
        return false;
      }
      case EK::Extract: {
        if (!term(c, e->k[0], t, split)) return false;
        if (t.p == t.m) { t = {0, 0, (I)(((uint64_t)t.k >> e->val) & maskw(e->w))}; return true; }
        if (e->w == 1) { settle(c, t); return false; }
        if (e->val != 0) {
          I lo, hi;
          range(c, t, lo, hi);
          if ((lo >> e->val) != (hi >> e->val)) { settle(c, t); return false; }
          t = {0, 0, (I)(((uint64_t)lo >> e->val) & maskw(e->w))};
          return true;
        }
        return wrap(c, t, e->w);
      }
      case EK::Ite: {
        bool v;
        if (!value(c, e->k[0], v)) { split = e->k[0]; return false; }
        return term(c, e->k[v ? 1 : 2], t, split);
      }
      case EK::Concat: {
        Term a, b;
        if (!term(c, e->k[0], a, split) || !term(c, e->k[1], b, split)) return false;
        if (a.p != a.m || b.p != b.m) { settle(c, a); settle(c, b); return false; }
        t = {0, 0, (I)(((uint64_t)a.k << e->k[1]->w) | (uint64_t)b.k)};
        return true;
      }
      case EK::Mul: case EK::UDiv: case EK::SDiv: case EK::URem: case EK::SRem: case EK::Shl: case EK::LShr: case EK::AShr: case EK::And: case EK::Or: case EK::Xor: {
        if (e->w == 1) return false;
        Term a, b;
        if (!term(c, e->k[0], a, split) || !term(c, e->k[1], b, split)) return false;
        if (a.p != a.m || b.p != b.m) { settle(c, a); settle(c, b); return false; }
        t = {0, 0, (I)ExprPool::fold(e->op, e->w, (uint64_t)a.k, (uint64_t)b.k)};
        return true;
      }
      default: return false;
    }
  }
  // a term whose value would have to be known
  void settle(Ctx& c, const Term& t) {
    if (t.p == t.m || (want.p != want.m)) return;
    I lo, hi;
    range(c, t, lo, hi);
    if (hi - lo <= 15) want = t;
  }
  Term want{0, 0, 0};
  bool boolTerm(Ctx& c, Expr* b, Term& t, Expr*& split) {
    bool v;
    if (!value(c, b, v)) { split = b; return false; }
    t = {0, 0, v ? 1 : 0};
    return true;
  }
  // is the formula already decided?
  bool value(Ctx& c, Expr* e, bool& v, int depth = 60) {
    if (e->op == EK::Const) { v = e->val; return true; }
    if (e->op == EK::Not) { if (!value(c, e->k[0], v, depth)) return false; v = !v; return true; }
    if (depth == 0) return false;
    auto it = memo.find(e);
    if (it != memo.end()) { v = it->second == 1; return it->second >= 0; }
    bool k = value1(c, e, v, depth);
    memo[e] = k ? v : -1;
    return k;
  }
  std::unordered_map<Expr*, int> memo;    // for the current bounds
  bool value1(Ctx& c, Expr* e, bool& v, int depth) {
    for (auto& a : c.atoms) if (a.first == e) { v = a.second; return true; }
    bool x, y;
    switch (e->op) {
      case EK::And: {
        bool a = value(c, e->k[0], x, depth - 1);
        if (a && !x) { v = false; return true; }
        bool b = value(c, e->k[1], y, depth - 1);
        if (b && !y) { v = false; return true; }
        v = true;
        return a && b;
      }
      case EK::Or: {
        bool a = value(c, e->k[0], x, depth - 1);
        if (a && x) { v = true; return true; }
        bool b = value(c, e->k[1], y, depth - 1);
        if (b && y) { v = true; return true; }
        v = false;
        return a && b;
      }
      case EK::Ite: if (!value(c, e->k[0], x, depth - 1)) return false; return value(c, e->k[x ? 1 : 2], v, depth - 1);
      case EK::Eq: case EK::Ult: case EK::Ule: case EK::Slt: case EK::Sle: {
        if (e->k[0]->w == 1) {
          if (e->op != EK::Eq || !value(c, e->k[0], x, depth - 1) || !value(c, e->k[1], y, depth - 1)) return false;
          v = x == y;
          return true;
        }
        Term a, b, r;
        Expr* sp = nullptr;
        if (!cmpTerms(c, e, a, b, sp) || !combine(a, b, -1, r)) return false;
        I lo, hi;
        range(c, r, lo, hi);
        if (e->op == EK::Eq) {
          if (lo == 0 && hi == 0) { v = true; return true; }
          if (lo > 0 || hi < 0) { v = false; return true; }
          return false;
        }
        I lim = (e->op == EK::Ult || e->op == EK::Slt) ? -1 : 0;
        if (hi <= lim) { v = true; return true; }
        if (lo > lim) { v = false; return true; }
        return false;
      }
      default: return false;
    }
  }
  bool cmpTerms(Ctx& c, Expr* e, Term& a, Term& b, Expr*& split) {
    if (!term(c, e->k[0], a, split) || !term(c, e->k[1], b, split)) return false;
    if (e->op == EK::Slt || e->op == EK::Sle) {
      for (Term* t : {&a, &b}) {
        I lo, hi, h = (I)1 << (e->k[0]->w - 1);
        range(c, *t, lo, hi);
        if (hi < h) continue;
        if (lo >= h) { t->k -= (I)1 << e->k[0]->w; continue; }
        return false;
      }
    }
    return true;
  }
  // 0 contradiction, 1 done, 2 not understood yet (split may be set)
  int compare(Ctx& c, Expr* e, bool pos, Expr*& split) {
    Term a, b, r;
    if (!cmpTerms(c, e, a, b, split)) return 2;
    if (!combine(a, b, -1, r)) return 2;
    if (e->op == EK::Eq) {
      if (pos) return edge(c, r.p, r.m, -r.k) && edge(c, r.m, r.p, r.k) ? 1 : 0;
      I lo, hi;
      range(c, r, lo, hi);
      if (lo > 0 || hi < 0) return 1;
      if (lo == 0 && hi == 0) return 0;
      c.diseq.push_back({a, b});
      return 1;
    }
    bool strict = e->op == EK::Ult || e->op == EK::Slt;
    if (pos) return edge(c, r.p, r.m, -r.k - (strict ? 1 : 0)) ? 1 : 0;
    return edge(c, r.m, r.p, r.k - (strict ? 0 : 1)) ? 1 : 0;
  }
  bool atom(Ctx& c, Expr* e, bool pos) {
    for (auto& a : c.atoms) if (a.first == e) return a.second == pos;
    c.atoms.push_back({e, pos});
    memo.clear();
    return true;
  }
  int run(Ctx& c, std::vector<Lit>& todo) {
    if (--budget < 0) return -1;
    memo.clear();
    for (;;) {
      while (!todo.empty()) {
        Lit l = todo.back();
        todo.pop_back();
        Expr* e = l.e;
        switch (e->op) {
          case EK::Const: if ((e->val != 0) != l.pos) return 0; break;
          case EK::Not: todo.push_back({e->k[0], !l.pos}); break;
          case EK::And: case EK::Or:
            if ((e->op == EK::And) == l.pos) { todo.push_back({e->k[1], l.pos}); todo.push_back({e->k[0], l.pos}); }
            else c.ors.push_back(l);
            break;
          case EK::Ite: case EK::Xor: c.ors.push_back(l); break;
          case EK::Eq: case EK::Ult: case EK::Ule: case EK::Slt: case EK::Sle: {
            if (e->k[0]->w == 1) { if (e->op == EK::Eq) c.ors.push_back(l); else c.later.push_back(l); break; }
            Expr* sp = nullptr;
            int r = compare(c, e, l.pos, sp);
            if (r == 0) return 0;
            if (r == 2) {
              c.later.push_back(l);
              if (!atom(c, e, l.pos)) return 0;     // known from here on, so that nobody decides it again
            }
            break;
          }
          default: if (!atom(c, e, l.pos)) return 0;
        }
      }
      // comparisons that have become clear
      bool progress = false;
      for (size_t i = 0; i < c.later.size();) {
        Expr* sp = nullptr;
        int r = c.later[i].e->k[0]->w == 1 ? 2 : compare(c, c.later[i].e, c.later[i].pos, sp);
        if (r == 0) return 0;
        if (r == 1) { c.later[i] = c.later.back(); c.later.pop_back(); progress = true; } else i++;
      }
      if (progress) continue;
      // disjunctions that have become clear
      for (size_t i = 0; i < c.ors.size();) {
        Lit l = c.ors[i];
        Expr* e = l.e;
        bool drop = false, v;
        if (value(c, e, v)) {
          if (v != l.pos) return 0;
          drop = true;
        } else if (e->op == EK::And || e->op == EK::Or) {
          for (int k = 0; k < 2 && !drop; k++)
            if (value(c, e->k[k], v) && v != l.pos) { todo.push_back({e->k[1 - k], l.pos}); drop = true; }
        } else if (e->op == EK::Ite) {
          if (value(c, e->k[0], v)) { todo.push_back({e->k[v ? 1 : 2], l.pos}); drop = true; }
        } else {   // Xor, Eq of booleans
          bool same = (e->op == EK::Eq) == l.pos;
          for (int k = 0; k < 2 && !drop; k++)
            if (value(c, e->k[k], v)) { todo.push_back({e->k[1 - k], same ? v : !v}); drop = true; }
        }
        if (drop) { c.ors[i] = c.ors.back(); c.ors.pop_back(); } else i++;
      }
      if (todo.empty()) break;
    }
    // a model without further splits?
    if (model(c)) return 1;
    // split
    auto both = [&](Lit a, Lit b1, Lit b2) {   // a, or b1 and b2
      splits++;
      bool unk = false;
      {
        Ctx d = c;
        std::vector<Lit> t{a};
        int r = run(d, t);
        if (r == 1) return 1;
        if (r < 0) unk = true;
      }
      if (budget < 0) return -1;
      std::vector<Lit> t;
      if (b2.e) t.push_back(b2);
      t.push_back(b1);
      int r = run(c, t);
      if (r == 1) return 1;
      return r < 0 || unk ? -1 : 0;
    };
    if (!c.ors.empty()) {
      Lit l = c.ors.back();
      c.ors.pop_back();
      Expr* e = l.e;
      if (e->op == EK::And || e->op == EK::Or) return both({e->k[0], l.pos}, {e->k[0], !l.pos}, {e->k[1], l.pos});
      // decide the condition (or the left side), the rest follows
      c.ors.push_back(l);
      Expr* d = e->k[0];
      return decide(c, d, both);
    }
    for (auto& l : c.later) {
      Expr* sp = nullptr;
      if (l.e->k[0]->w == 1) continue;
      compareSplit(c, l.e, sp);
      if (sp) return decide(c, sp, both);
    }
    for (size_t i = 0; i < c.diseq.size(); i++) {
      Term r;
      auto q = c.diseq[i];
      c.diseq[i] = c.diseq.back();
      c.diseq.pop_back();
      if (!combine(q.first, q.second, -1, r)) return -1;
      splits++;
      bool unk = false;
      {
        Ctx d = c;
        std::vector<Lit> t;
        if (edge(d, r.p, r.m, -r.k - 1)) { int x = run(d, t); if (x == 1) return 1; if (x < 0) unk = true; }
      }
      if (budget < 0) return -1;
      std::vector<Lit> t;
      if (!edge(c, r.m, r.p, r.k - 1)) return unk ? -1 : 0;
      int x = run(c, t);
      if (x == 1) return 1;
      return x < 0 || unk ? -1 : 0;
    }
    // settle a term of few values
    if (!c.later.empty()) {
      want = {0, 0, 0};
      for (auto& l : c.later) {
        Expr* sp = nullptr;
        if (l.e->k[0]->w == 1) continue;
        compareSplit(c, l.e, sp);
        if (want.p != want.m) break;
      }
      if (want.p != want.m) {
        Term w = want;
        I lo, hi;
        range(c, w, lo, hi);
        I mid = lo + (hi - lo) / 2 - w.k;
        splits++;
        bool unk = false;
        {
          Ctx d = c;
          std::vector<Lit> t;
          if (edge(d, w.p, w.m, mid)) { int r = run(d, t); if (r == 1) return 1; if (r < 0) unk = true; }
        }
        if (budget < 0) return -1;
        std::vector<Lit> t;
        if (!edge(c, w.m, w.p, -mid - 1)) return unk ? -1 : 0;
        int r = run(c, t);
        if (r == 1) return 1;
        return r < 0 || unk ? -1 : 0;
      }

      for (auto& l : c.later)
        for (uint32_t v : P.varsOf(l.e)) {
          unsigned x = node[v];
          if (!x) continue;
          I hi = c.d[x * n], lo = -c.d[x];
          if (hi <= lo || hi - lo > 7) continue;
          I mid = lo + (hi - lo) / 2;
          splits++;
          bool unk = false;
          {
            Ctx d = c;
            std::vector<Lit> t;
            if (edge(d, x, 0, mid)) { int r = run(d, t); if (r == 1) return 1; if (r < 0) unk = true; }
          }
          if (budget < 0) return -1;
          std::vector<Lit> t;
          if (!edge(c, 0, x, -mid - 1)) return unk ? -1 : 0;
          int r = run(c, t);
          if (r == 1) return 1;
          return r < 0 || unk ? -1 : 0;
        }
    }
    return -1;   // not understood
  }
  template <class B> int decide(Ctx& c, Expr* d, B& both) {
    bool pos = true;
    while (d->op == EK::Not) { d = d->k[0]; pos = !pos; }
    // opaque conditions and plain booleans are assumed as atoms; structure is asserted
    (void)pos;
    Ctx save;
    return both({d, true}, {d, false}, {nullptr, false});
  }
  void compareSplit(Ctx& c, Expr* e, Expr*& sp) {
    Term a, b;
    cmpTerms(c, e, a, b, sp);
  }
  bool model(Ctx& c) {
    std::vector<I> x(n, 0);
    std::vector<bool> done(n, false);
    done[0] = true;
    for (unsigned i = 1; i < n; i++) {
      I lo = 0, hi = INF;
      for (unsigned j = 0; j < n; j++) {
        if (!done[j]) continue;
        I a = x[j] + c.d[i * n + j], b = x[j] - c.d[j * n + i];
        if (a < hi) hi = a;
        if (b > lo) lo = b;
      }
      if (lo > hi) return false;
      I h = hintModel && vars[i] < hintModel->vals.size() ? (I)hintModel->vals[vars[i]] : lo;
      x[i] = h < lo ? lo : h > hi ? hi : h;
      done[i] = true;
    }
    Model m;
    m.uid = 0;
    m.vals.assign(P.vars.size(), 0);
    if (hintModel) for (size_t i = 0; i < hintModel->vals.size() && i < m.vals.size(); i++) m.vals[i] = hintModel->vals[i];
    for (unsigned i = 1; i < n; i++) m.vals[vars[i]] = (uint64_t)x[i];
    for (auto& a : c.atoms) if (a.first->op == EK::Var) m.vals[a.first->val] = a.second;
    m.uid = ++uids;
    for (Expr* e : *all) if (!P.eval(e, &m)) return false;
    out->clear();
    for (uint32_t v : *vlist) out->push_back({v, m.vals[v]});
    return true;
  }
  uint64_t uids = 1ull << 60;
};
