//@ bound every valid configuration state of at most 4 members with arbitrary node numbers (5 with numbers 1..5), listed in any rotation; equality of states of at most 3 ids per list, arbitrary ids
//@ entry restore reach=simple,joint,learners,staged
//@ entry order reach=joint
//@ entry equal reach=same,differ
//@ entry node reach=joint,simple
//@ entry kept reach=joint,learner,stepdown,elected
//@ bound one message of any type and term, tick or request at a node in any role with 5 configurations
#include "cfg.h"

static raftpb::ConfState stateOf(const Abs& a, u64 rot) {
  raftpb::ConfState c;
  auto put = [&](const std::set<u64>& s, auto add) {
    std::vector<u64> v(s.begin(), s.end());
    for (size_t i = 0; i < v.size(); i++) add(v[(i + rot) % v.size()]);
  };
  put(a.in, [&](u64 x) { c.add_voters(x); });
  put(a.out, [&](u64 x) { c.add_voters_outgoing(x); });
  put(a.learn, [&](u64 x) { c.add_learners(x); });
  put(a.next, [&](u64 x) { c.add_learners_next(x); });
  c.set_auto_leave(a.autol);
  return c;
}
static void check(const Abs& a, u64 rot) {
  ProgressTracker t(5);
  u64 last = symLE("last", BIG);
  Changer c(hlog(), t, last);
  auto cs = stateOf(a, rot);
  auto [cfg, prs, st] = craft::Restore(c, cs);
  se_assert(st.IsOK(), "every valid state restores");
  if (!st.IsOK()) return;
  se_assert(absOf(cfg) == a, "to the voters, outgoing voters, learners, staged learners and auto-leave mark it lists");
  auto all = a.all();
  bool ok = prs.size() == all.size();
  for (u64 x : all) {
    auto it = prs.find(x);
    if (it == prs.end()) { ok = false; break; }
    ok &= it->second->IsLearner() == (a.learn.count(x) != 0);
    ok &= (it->second->Match() == 0) & (it->second->Next() == last);
  }
  se_assert(ok, "with every member tracked in its role");
  t.SetConfig(cfg);
  t.SetProgressMap(prs);
  auto back = t.ConfState();
  se_assert(back == cs, "describing the result gives the state again");
  se_assert(back.voters_size() == cs.voters_size() && back.voters_outgoing_size() == cs.voters_outgoing_size() && back.learners_size() == cs.learners_size() &&
            back.learners_next_size() == cs.learners_next_size() && back.auto_leave() == cs.auto_leave(), "with lists of the same lengths");
  std::set<u64> v = a.in;
  v.insert(a.out.begin(), a.out.end());
  se_assert(t.VoterNodes() == std::vector<u64>(v.begin(), v.end()), "the voters of both halves are listed once, in order");
  se_assert(t.LearnerNodes() == std::vector<u64>(a.learn.begin(), a.learn.end()), "the learners are listed, in order");
  se_reach(a.joint() ? "joint" : "simple");
  if (!a.learn.empty()) se_reach("learners");
  if (!a.next.empty()) se_reach("staged");
}
ENTRY restore() {
  u64 n = 1 + pick("n", 5);
  check(anyCfg(n), 0);
}
// arbitrary node numbers, any order in the lists
ENTRY order() {
  Abs p = anyCfg(4), a;
  u64 id[5], prev = 0;
  for (int i = 1; i <= 4; i++) { id[i] = sym("id"); se_assume(id[i] > prev); prev = id[i]; }
  auto map = [&](const std::set<u64>& s) { std::set<u64> r; for (u64 x : s) r.insert(id[x]); return r; };
  a.in = map(p.in); a.out = map(p.out); a.learn = map(p.learn); a.next = map(p.next); a.autol = p.autol;
  check(a, pick("rot", 3));
}
#ifdef SE_THOROUGH
static const u64 LEN = 3;
#else
static const u64 LEN = 2;
#endif
// as multisets, branch-free
static bool sameSet(const std::vector<u64>& a, const std::vector<u64>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (u64 x : a) {
    size_t n = a.size();
    // the number of occurrences agrees, for up to 3 elements: unary counting
    std::vector<bool> ca, cb;
    auto count = [&](const std::vector<u64>& v) {
      std::vector<char> t(n + 1, 0);
      t[0] = 1;
      for (u64 y : v) { bool e = y == x; for (size_t k = n; k > 0; k--) t[k] = (char)((bool)t[k] | ((bool)t[k - 1] & e)); }
      return t;
    };
    auto ta = count(a), tb = count(b);
    for (size_t k = 1; k <= n; k++) ok &= (bool)ta[k] == (bool)tb[k];
  }
  return ok;
}
ENTRY equal() {
  // two lists are arbitrary, the others shared
  u64 which = pick("which", 4);
  raftpb::ConfState c[2];
  std::vector<u64> l[2];
  for (int k = 0; k < 2; k++) {
    u64 n = pick("len", LEN + 1);
    for (u64 i = 0; i < n; i++) l[k].push_back(sym("id"));
    for (u64 x : l[k]) { if (which == 0) c[k].add_voters(x); if (which == 1) c[k].add_voters_outgoing(x); if (which == 2) c[k].add_learners(x); if (which == 3) c[k].add_learners_next(x); }
    if (which != 0) c[k].add_voters(k ? 1 : 2), c[k].add_voters(k ? 2 : 1);
    if (which != 2) c[k].add_learners(9);
    c[k].set_auto_leave(symB("auto"));
  }
  bool e = c[0] == c[1];
  bool want = sameSet(l[0], l[1]) & (c[0].auto_leave() == c[1].auto_leave());
  se_assert(e == want, "states are equal iff their lists hold the same ids and the auto-leave marks agree");
  se_assert((c[1] == c[0]) == e, "whichever way round");
  se_reach(e ? "same" : "differ");
  se_emit(e);
}
// a node starts with the configuration its storage describes, and says so
ENTRY node() {
  Abs a = anyCfg(3);
  Node n;
  n.o.cfg = a.cfg();
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  se_assert(absOf(n->GetTracker().GetConfig()) == a, "a started node has the stored configuration");
  auto cs = a.cfg().cs();
  se_assert(n->GetTracker().ConfState() == cs, "and describes it the same");
  bool ok = true;
  for (u64 x : a.all()) {
    auto p = n->GetTracker().GetProgress(x);
    ok &= p != nullptr && p->IsLearner() == (a.learn.count(x) != 0);
    if (p) ok &= (p->Next() == n.g.last() + 1) & (p->Match() == (x == 1 ? n.g.last() : 0));
  }
  se_assert(ok, "every member is tracked in its role, next to be sent what follows the log");
  se_reach(a.joint() ? "joint" : "simple");
}

// nothing but an applied change or a snapshot alters the configuration or a member's role
ENTRY kept() {
  Node n;
  u64 ck = pick("cfg", 5);
  n.o.cfg = ck == 0 ? C2L() : ck == 1 ? CJLN() : ck == 2 ? CJ() : ck == 3 ? CL() : C3();
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  Abs a = absOf(n->GetTracker().GetConfig());
  auto cs = n->GetTracker().ConfState();
  int role = anyRole(n, 15, 0);
  auto same = [&](const char* when) {
    se_assert(absOf(n->GetTracker().GetConfig()) == a, "the configuration is kept");
    se_assert(n->GetTracker().ConfState() == cs, "and described the same");
    bool ok = n->GetTracker().GetProgressMap().size() == a.all().size();
    for (u64 x : a.all()) { auto p = n->GetTracker().GetProgress(x); ok &= p != nullptr && p->IsLearner() == (a.learn.count(x) != 0); }
    se_assert(ok, "every member stays tracked in its role");
  };
  same("role");
  if (role == CAND) n->GetTracker().RecordVote(1, true);
  if (role == LEAD) { for (u64 x : a.all()) if (x != 1) quietProgress(n, x); }
  n->SetElectionElapsed(symLE("elapsed", 30));
  u64 k = pick("event", 17);
  if (k == 13) n->Tick();
  else if (k == 14) n->Step(mkMsg(0, 1, 0));
  else if (k == 15) n->Step(mkMsg(12, 1, 0));
  else if (k == 16) { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("x"); n->Step(m); }
  else {
    u64 mt = symIn("mterm", 1, BIG);
    if (kNetTypes[k] == 7) se_stop();
    if (kNetTypes[k] == 3 || kNetTypes[k] == 8) if (role == LEAD) se_assume(mt != n->Term());
    AnyOpt ao;
    ao.senders = 2;
    auto m = anyMsg(n, kNetTypes[k], mt, ao);
    if (kNetTypes[k] == 15 || kNetTypes[k] == 13) m->set_term(0);
    n->Step(m);
  }
  same("event");
  if (a.joint()) se_reach("joint");
  if (!a.learn.empty()) se_reach("learner");
  if (role == LEAD && n->State() != kLeader) se_reach("stepdown");
  if (role != LEAD && n->State() == kLeader) se_reach("elected");
  emitNode(n.r.get());
}
