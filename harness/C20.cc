//@ bound every valid configuration of 4 nodes (5 for leaving), simple and joint; change lists of at most 2 (thorough: 3) operations of arbitrary kind and node number (64 bits); arbitrary progress of every member
//@ entry simple reach=ok,refused,joint,learner,remove
//@ entry enter reach=ok,refused,staged,allgone
//@ entry leave reach=ok,refused,demoted
//@ entry start reach=ok,learner
#include "cfg.h"

#ifdef SE_THOROUGH
static const u64 NODES = 4, OPS = 3;
#else
static const u64 NODES = 4, OPS = 2;
#endif
struct T {
  Abs a;
  std::unique_ptr<ProgressTracker> t;
  struct P { u64 match, next; bool active, learner; int state; };
  std::map<u64, P> ps;
  u64 last = 0;
};
static void mk(T& x, Abs a) {
  x.a = a;
  x.t = std::make_unique<ProgressTracker>(7);
  x.t->SetConfig(cfgOf(a));
  ProgressMap m;
  for (u64 id : a.all()) {
    T::P p{symLE("match", BIG), 0, symB("active"), a.learn.count(id) != 0, 0};
    p.next = symIn("next", 1, BIG);
    se_assume(p.next > p.match);
    auto pr = std::make_shared<Progress>(hlog(), p.next, p.match, 7, p.learner, p.active);
    if (id % 2) { pr->BecomeReplicate(); p.state = 1; p.next = p.match + 1; if (!pr->GetInflights()->Full()) pr->GetInflights()->Add(p.match + 1); }
    m[id] = pr;
    x.ps[id] = p;
  }
  x.t->SetProgressMap(m);
  x.last = symLE("last", BIG);
}
static bool samePr(const ProgressPtr& p, const T::P& q, bool learner) {
  return (p->Match() == q.match) & (p->Next() == q.next) & (p->RecentActive() == q.active) & (p->IsLearner() == learner) &
         ((int)p->State() == (q.state ? REPL : PROBE)) & (p->GetInflights()->Count() == q.state);
}
static void untouched(T& x, Changer& c) {
  for (ProgressTracker* t : {x.t.get(), &c.GetProgressTracker()}) {
    se_assert(absOf(t->GetConfig()) == x.a, "the configuration in force stays until the new one is taken over");
    bool ok = t->GetProgressMap().size() == x.ps.size();
    for (auto& p : t->GetProgressMap()) ok &= x.ps.count(p.first) && samePr(p.second, x.ps[p.first], x.ps[p.first].learner);
    se_assert(ok, "and so does everybody's progress");
  }
}
static void result(T& x, const Abs& want, const ProgressTracker::Config& cfg, const ProgressMap& prs) {
  se_assert(absOf(cfg) == want, "the new configuration is the one the operations describe");
  Abs& w = const_cast<Abs&>(want);
  se_assert(!w.in.empty(), "there are always voters");
  for (u64 y : w.learn) se_assert(!w.in.count(y) && !w.out.count(y), "nobody is voter and learner");
  for (u64 y : w.next) se_assert(w.out.count(y), "staged learners are outgoing voters");
  auto all = w.all();
  se_assert(prs.size() == all.size(), "every member and nobody else is tracked");
  bool kept = true, fresh = true;
  for (u64 y : all) {
    auto it = prs.find(y);
    if (it == prs.end()) { se_assert(false, "every member is tracked"); return; }
    bool l = w.learn.count(y);
    if (x.ps.count(y)) {
      kept &= samePr(it->second, x.ps[y], l);
    } else {
      // added (or removed and added again): nothing is known
      auto p = it->second;
      fresh &= (p->Match() == 0) & (p->Next() == x.last) & p->RecentActive() & (p->IsLearner() == l) & ((int)p->State() == PROBE) & (p->GetInflights()->Count() == 0) & (p->GetInflights()->Size() == 7);
    }
  }
  se_assert(kept, "progress is kept for those who stay");
  se_assert(fresh, "and starts from nothing for newcomers");
}
struct Op { int type; u64 id; };
static std::vector<raftpb::ConfChangeSingle> ops(std::vector<Op>& os, u64 nodes) {
  u64 n = pick("nops", OPS + 1);
  std::vector<raftpb::ConfChangeSingle> v;
  for (u64 i = 0; i < n; i++) {
    raftpb::ConfChangeSingle s;
    Op o{(int)symIn("kind", 0, 3), sym("node")};   // any node number at all
    s.set_type((raftpb::ConfChangeType)o.type);
    s.set_node_id(o.id);
    v.push_back(s);
    os.push_back(o);
  }
  return v;
}
// those who left and came back in one change are new
static void gone(T& x, Abs a, const std::vector<Op>& os, bool enter) {
  if (enter) a.out = a.in;
  for (auto& o : os) { a.apply(o.type, o.id); for (auto it = x.ps.begin(); it != x.ps.end();) if (!a.tracked(it->first)) it = x.ps.erase(it); else ++it; }
}
ENTRY simple() {
  T x;
  mk(x, anyCfg(NODES));
  std::vector<Op> os;
  auto v = ops(os, NODES);
  Changer c(hlog(), *x.t, x.last);
  auto [cfg, prs, st] = c.Simple(v);
  Abs w = x.a;
  for (auto& o : os) w.apply(o.type, o.id);
  size_t diff = 0;
  for (u64 y : w.in) diff += !x.a.in.count(y);
  for (u64 y : x.a.in) diff += !w.in.count(y);
  bool ok = !x.a.joint() && !w.in.empty() && diff <= 1;
  se_assert(st.IsOK() == ok, "a simple change is refused when joint, when it removes all voters or changes more than one");
  untouched(x, c);
  if (ok) { gone(x, x.a, os, false); result(x, w, cfg, prs); se_reach("ok"); if (w.learn.size() > x.a.learn.size()) se_reach("learner"); if (w.all().size() < x.a.all().size()) se_reach("remove"); }
  else se_reach(x.a.joint() ? "joint" : "refused");
  se_emit(ok);
}
ENTRY enter() {
  T x;
  mk(x, anyCfg(NODES));
  std::vector<Op> os;
  auto v = ops(os, NODES);
  bool al = pick("autoleave", 2);
  Changer c(hlog(), *x.t, x.last);
  auto [cfg, prs, st] = c.EnterJoint(al, v);
  Abs w = x.a;
  bool ok = !x.a.joint();
  if (ok) {
    w.out = w.in;
    w.autol = al;
    for (auto& o : os) w.apply(o.type, o.id);
    if (w.in.empty()) { ok = false; se_reach("allgone"); }
  }
  se_assert(st.IsOK() == ok, "entering is refused when already joint or when no voter remains");
  untouched(x, c);
  if (ok) { gone(x, x.a, os, true); result(x, w, cfg, prs); se_reach("ok"); if (!w.next.empty()) se_reach("staged"); }
  else se_reach("refused");
  se_emit(ok);
}
ENTRY leave() {
  T x;
  mk(x, anyCfg(NODES + 1));
  Changer c(hlog(), *x.t, x.last);
  auto [cfg, prs, st] = c.LeaveJoint();
  Abs w = x.a;
  bool ok = x.a.joint();
  se_assert(st.IsOK() == ok, "leaving is refused when not joint");
  untouched(x, c);
  if (ok) {
    if (!w.next.empty()) se_reach("demoted");
    w.leave();
    result(x, w, cfg, prs);
    se_reach("ok");
  } else se_reach("refused");
}
// from nothing
ENTRY start() {
  T x;
  Abs e;
  mk(x, e);
  std::vector<Op> os;
  auto v = ops(os, 2);
  bool joint = pick("enter", 2);
  Changer c(hlog(), *x.t, x.last);
  auto [cfg, prs, st] = joint ? c.EnterJoint(false, v) : c.Simple(v);
  Abs w = e;
  for (auto& o : os) w.apply(o.type, o.id);
  bool ok = !joint && w.in.size() == 1;
  se_assert(st.IsOK() == ok, "the first voter comes alone, by a simple change");
  if (ok) { result(x, w, cfg, prs); se_reach("ok"); if (!w.learn.empty()) se_reach("learner"); }
}
