// Abstract configurations, for the oracles of configuration changes.
#pragma once
#include "common.h"
struct Abs {
  std::set<u64> in, out, learn, next;
  bool autol = false;
  bool joint() const { return !out.empty(); }
  bool tracked(u64 x) const { return in.count(x) || out.count(x) || learn.count(x); }
  std::set<u64> all() const { std::set<u64> s = in; s.insert(out.begin(), out.end()); s.insert(learn.begin(), learn.end()); return s; }
  void drop(u64 x) { in.erase(x); learn.erase(x); next.erase(x); }
  // ids are concrete here; types: 0 add, 1 remove, 2 update, 3 learner
  void apply(int type, u64 x) {
    if (x == 0 || type == 2) return;
    if (type == 0) { learn.erase(x); next.erase(x); in.insert(x); }
    else if (type == 1) drop(x);
    else {
      if (learn.count(x)) return;
      bool was = out.count(x);
      drop(x);
      if (was) next.insert(x); else learn.insert(x);
    }
  }
  void leave() {
    for (u64 x : next) learn.insert(x);
    next.clear();
    out.clear();
    autol = false;
  }
  bool operator==(const Abs& o) const { return in == o.in && out == o.out && learn == o.learn && next == o.next && autol == o.autol; }
  Cfg cfg() const {
    auto v = [](const std::set<u64>& s) { return std::vector<u64>(s.begin(), s.end()); };
    Cfg c{v(in), v(out), v(learn), v(next)};
    c.auto_leave = autol;
    return c;
  }
};
inline Abs absOf(const ProgressTracker::Config& c) {
  Abs a;
  a.in = c.voters.Incoming().IDs();
  a.out = c.voters.Outgoing().IDs();
  a.learn = c.learners;
  a.next = c.learners_next;
  a.autol = c.auto_leave;
  return a;
}
inline ProgressTracker::Config cfgOf(const Abs& a) {
  ProgressTracker::Config c;
  c.voters = JointConfig(a.in, a.out);
  c.learners = a.learn;
  c.learners_next = a.next;
  c.auto_leave = a.autol;
  return c;
}
// any valid configuration of the nodes 1 .. n
inline Abs anyCfg(u64 n, bool allowEmpty = false) {
  Abs a;
  bool joint = pick("joint", 2);
  for (u64 x = 1; x <= n; x++) {
    u64 r = pick("role", joint ? 6 : 3);
    if (r == 1 || r == 3) a.in.insert(x);
    if (r == 2) a.learn.insert(x);
    if (r >= 3) a.out.insert(x);
    if (r == 5) a.next.insert(x);
  }
  if (joint) { if (a.out.empty() || a.in.empty()) se_stop(); a.autol = pick("auto", 2); }
  else if (a.in.empty() && (!allowEmpty || !a.learn.empty())) se_stop();
  return a;
}
