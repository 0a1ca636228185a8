//@ bound one check, tick or message at a leader with any combination of recent activity in simple, joint, learner configurations of up to 5 voters; two election timeouts of 3 ticks with any set of peers answering in each; vote requests of any term at any node
//@ entry check reach=stays,stepsdown,removed
//@ entry ticked reach=check,nocheck,off
//@ entry activity reach=active,not
//@ entry rounds reach=stays,stepsdown
//@ entry lease reach=ignored,transfer,open,off
//@ entry stood reach=candidate,precandidate,granted
#include "common.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CJ();
    case 2: return C2L();
    case 3: return C1();
    case 4: return Cfg{{1, 2, 3, 4}, {}, {}, {}};
    case 5: return Cfg{{1, 2}, {3, 4, 5}, {}, {}};
    case 6: return Cfg{{2, 3}, {1, 2}, {}, {1}};
    default: return C5();
  }
}
static void mkL(Node& n, Cfg c, bool cq) {
  n.o.cfg = c;
  n.o.checkQuorum = cq;
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.symCommit = false;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
}
static std::map<u64, bool> act;
static void anyActivity(Node& n) {
  for (auto& p : n->GetTracker().GetProgressMap()) {
    bool a = symB(("act" + std::to_string(p.first)).c_str());
    p.second->SetRecentActive(a);
    act[p.first] = a;
    // whatever the leader is doing for it
    if (p.first == 2) {
      u64 st = pick("state2", 3);
      if (st == 1) p.second->BecomeReplicate();
      if (st == 2) p.second->BecomeSnapshot(n.g.last());
    }
  }
}
static bool quorumActive(const Cfg& c) {
  return quorum(c, [&](u64 y) { return y == 1 ? true : act.count(y) ? act[y] : false; });
}
static void outcome(Node& n, const Cfg& c, bool act0, u64 t, u64 v) {
  bool lead = n->State() == kLeader;
  se_assert(lead == act0, "a leader stays iff it heard from a quorum since the last check");
  se_assert((n->Term() == t) & (n->Vote() == v), "the check changes neither term nor vote");
  if (!lead) { se_assert((n->State() == kFollower) & (n->Lead() == 0), "it becomes a follower without a leader"); se_reach("stepsdown"); }
  else { se_assert(n->Lead() == 1, "it stays the leader"); se_reach("stays"); }
  for (auto& p : n->GetTracker().GetProgressMap()) if (p.first != 1) se_assert(!p.second->RecentActive(), "a new observation round begins");
}

ENTRY check() {
  Node n;
  u64 k = pick("cfg", 9);
  Cfg c = k == 8 ? C3() : family(k);
  mkL(n, c, true);
  if (k == 8) {
    // the leader is removed: it must not count itself
    raftpb::ConfChangeV2 cc;
    auto s = cc.add_changes();
    s->set_type(raftpb::ConfChangeRemoveNode);
    s->set_node_id(1);
    n->ApplyConfChange(std::move(cc));
    c = Cfg{{2, 3}, {}, {}, {}};
    se_reach("removed");
  }
  anyActivity(n);
  bool q = quorumActive(c);
  u64 t = n->Term(), v = n->Vote();
  n->Step(mkMsg(12, 1, 0));
  outcome(n, c, q, t, v);
  emitNode(n.r.get());
}

ENTRY ticked() {
  Node n;
  bool cq = pick("cq", 2);
  Cfg c = family(pick("cfg", 3));
  mkL(n, c, cq);
  anyActivity(n);
  bool q = quorumActive(c);
  u64 t = n->Term(), v = n->Vote();
  u64 el = symLE("elapsed", n.o.etick);
  se_assume(el < n.o.etick);
  n->SetElectionElapsed(el);
  n->Tick();
  if (el + 1 >= n.o.etick && cq) {
    outcome(n, c, q, t, v);
    se_assert(n->ElectionElapsed() == 0, "the next check is one timeout away");
    se_reach("check");
  } else {
    se_assert((n->State() == kLeader) & (n->Term() == t), "no check before the timeout, none at all without check-quorum");
    for (auto& p : n->GetTracker().GetProgressMap()) se_assert(p.second->RecentActive() == act[p.first], "observations are kept");
    se_reach(cq ? "nocheck" : "off");
  }
  emitNode(n.r.get());
}

ENTRY activity() {
  Node n;
  Cfg c = family(pick("cfg", 3) == 2 ? 2 : 0);
  mkL(n, c, true);
  for (auto& p : n->GetTracker().GetProgressMap()) p.second->SetRecentActive(false);
  static const int ty[] = {4, 9, 6, 10, 11, 13, 18, 5, 16, 14, 17};
  int k = ty[pick("type", 11)];
  u64 from = 2 + pick("from", 3);
  u64 t = n->Term();
  u64 mt = k == 10 || k == 11 || k == 13 ? 0 : pick("older", 2) ? symIn("mterm", 1, BIG) : t;
  se_assume(mt <= t);
  auto m = mkMsg(k, from, mt);
  m->set_reject(symB("rej"));
  m->set_index(n.g.base);
  m->set_rejecthint(n.g.base);
  n->Step(m);
  bool now = (k == 4 || k == 9) && mt == t;
  for (auto& p : n->GetTracker().GetProgressMap()) if (p.first != 1) se_assert(p.second->RecentActive() == (now && p.first == from), "only answers to the leader of this term count as hearing from a peer");
  se_reach(now && c.member(from) ? "active" : "not");
  emitNode(n.r.get());
}

// two timeouts of ticks; in each some peers answer
ENTRY rounds() {
  Node n;
  n.o.etick = 3;
  n.o.htick = 1;
  Cfg c = family(pick("cfg", 3));
  mkL(n, c, true);
  anyActivity(n);
  u64 t = n->Term();
  bool lead = true;
  for (int r = 0; r < 2 && lead; r++) {
    u64 at = pick("at", 3);
    for (u64 i = 0; i < 3; i++) {
      if (i == at) for (u64 id : c.all()) if (id != 1 && pick("hears", 2)) {
        auto m = mkMsg(9, id, t);
        n->Step(m);
        act[id] = true;
      }
      bool q = quorumActive(c);
      n->Tick();
      if (i < 2) se_assert(n->State() == kLeader, "leader until the check");
      else {
        se_assert((n->State() == kLeader) == q, "at the check: whoever heard from a quorum in this round stays");
        lead = q;
        for (auto& a : act) a.second = false;
      }
    }
  }
  se_assert(n->Term() == t, "in the same term");
  se_reach(lead ? "stays" : "stepsdown");
  emitNode(n.r.get());
}

ENTRY lease() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.symCommit = false;
  mkNode(n);
  anyRole(n, 15, 0);
  n->SetElectionElapsed(symLE("elapsed", 30));
  int ty = pick("pre", 2) ? 17 : 5;
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt > n->Term());
  auto m = anyMsg(n, ty, mt);
  bool transfer = m->context() == "CampaignTransfer";
  bool hears = (n->Lead() != 0) & (n->ElectionElapsed() < (int64_t)n.o.etick);
  Snapv a = snapv(n.r.get());
  u64 from = m->from();
  n->Step(m);
  if (n.o.checkQuorum && hears && !transfer) {
    se_assert((snapv(n.r.get()) == a) & n->Msgs().empty(), "a node that heard from its leader ignores the request entirely");
    se_reach("ignored");
  } else {
    se_assert(n->Msgs().size() == 1 && n->Msgs()[0]->to() == from && (int)n->Msgs()[0]->type() == (ty == 5 ? 6 : 18), "otherwise it answers");
    if (ty == 5) se_assert(n->Term() == mt, "and follows the term of a vote request");
    se_reach(!n.o.checkQuorum ? "off" : transfer ? "transfer" : "open");
  }
  emitNode(n.r.get());
}

// who stands for election has given up on its leader: nobody is ignored for its sake
ENTRY stood() {
  Node n;
  n.o.checkQuorum = true;
  n.o.preVote = pick("pv", 2);
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  mkNode(n);
  n->BecomeFollower(n.term, 2);
  u64 how = pick("how", 3);
  if (how == 0) { n->SetElectionElapsed(30); n->Tick(); }
  else if (how == 1) n->Step(mkMsg(0, 1, 0));
  else { auto m = mkMsg(14, 2, n->Term()); if (n->Term() == 0) se_stop(); n->Step(m); }
  int st = (int)n->State();
  se_assert(st != (int)kFollower && st != (int)kLeader, "it stands");
  se_assert(n->Lead() == 0, "and knows no leader");
  se_reach(st == (int)kCandidate ? "candidate" : "precandidate");
  n.r->ClearMsgs();
  u64 mt = n->Term() + 1 + pick("newer", 2);
  auto m = mkMsg(pick("pre", 2) ? 17 : 5, 3, mt);
  m->set_index(n.g.last());
  m->set_logterm(n.g.lastTerm());
  bool pre = (int)m->type() == 17;
  n->Step(m);
  se_assert(n->Msgs().size() == 1 && n->Msgs()[0]->to() == 3 && !n->Msgs()[0]->reject() && (int)n->Msgs()[0]->type() == (pre ? 18 : 6), "another candidate of a higher term gets its answer");
  se_reach("granted");
  emitNode(n.r.get());
}
