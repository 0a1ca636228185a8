//@ bound one message, proposal or configuration change at a leader with arbitrary acknowledgements; up to 5 voters, joint and learner configurations; log of at most 2 older entries + the leader's empty entry + 1 after an arbitrary base
//@ entry ack reach=advanced,oldterm,same,learner
//@ entry reject reach=reject
//@ entry other reach=same
//@ entry propose reach=single,waits
//@ entry conf reach=advanced,same
#include "common.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CJ2();
    case 2: return C2L();
    case 3: return Cfg{{1, 2, 3, 4}, {}, {}, {}};
    case 4: return Cfg{{1, 2, 3}, {1, 4}, {}, {}};
    case 5: return C5();
    case 6: return Cfg{{2, 3}, {1, 2}, {}, {1}};
    default: return Cfg{{1, 2}, {3, 4, 1}, {5}, {}};
  }
}
#ifdef SE_THOROUGH
static const int NFAM = 8;
#else
static const int NFAM = 5;
#endif
struct L {
  Node n;
  std::map<u64, u64> match;
};
static void mk(L& x, Cfg c, bool settled = true) {
  Node& n = x.n;
  n.o.cfg = c;
  n.o.baseKind = 1;
#ifdef SE_THOROUGH
  n.o.baseKind = (int)pick("basekind", 2);
  n.o.stable = (int)pick("nstable", 3);
#else
  n.o.stable = 1;
#endif
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  anyRole(n, 1 << LEAD, (int)pick("own", 2));
  for (u64 id : c.all()) if (id != 1) x.match[id] = quietProgress(n, id);
  x.match[1] = n.g.last();
}
// is `now` the commit index the rule asks for, given the former one; and is there
// a position that a quorum acknowledged but that is not of the own term
static bool rule(Node& n, const Cfg& c, std::map<u64, u64>& match, u64 old, u64 now, bool* older = nullptr) {
  bool ok = now == old, any = false;
  for (size_t k = 0; k < n.g.e.size(); k++) {
    u64 p = n.g.base + 1 + k;
    bool acked = ackedAt(c, p, [&](u64 y) { return match[y]; });
    bool adv = acked & (p > old) & (n.g.e[k].term == n.term);
    ok = (adv & (now == p)) | (!adv & ok);      // the largest such position decides
    any |= acked & (p > old) & (n.g.e[k].term != n.term);
  }
  if (older) *older = any;
  return ok;
}

static u64 ackFrom(Node& n, const Cfg& c, u64 lo) {
  u64 from = 2 + pick("from", 4);
  if (from > 3 && !c.member(from) && from != 5) se_stop();
  return from;
}
ENTRY ack() {
  L x;
  Cfg c = family(pick("cfg", NFAM));
  mk(x, c);
  Node& n = x.n;
  se_assume(rule(n, c, x.match, n.commit, n.commit));
  u64 from = ackFrom(n, c, 2);
  auto m = mkMsg(4, from, n.term);
  u64 idx = symIn("mindex", n.g.base, n.g.last());
  m->set_index(idx);
  u64 old = n.commit;
  n->Step(m);
  u64 now = n->GetRaftLog()->Committed();
  if (c.member(from)) x.match[from] = maxu(x.match[from], idx);
  bool older = false;
  se_assert(rule(n, c, x.match, old, now, &older), "commit is the largest position of the own term that a quorum of every half acknowledged, else unchanged");
  if (!c.voter(from)) { se_assert(now == old, "whoever is no voter commits nothing"); se_reach("learner"); }
  if (now > old) se_reach("advanced"); else se_reach("same");
  if (now == old && older) se_reach("oldterm");
  emitNode(n.r.get());
}
ENTRY reject() {
  L x;
  Cfg c = family(pick("cfg", 3));
  mk(x, c);
  Node& n = x.n;
  se_assume(rule(n, c, x.match, n.commit, n.commit));
  u64 from = 2 + pick("from", 2);
  auto m = mkMsg(4, from, n.term);
  m->set_index(symIn("mindex", n.g.base, n.g.last()));
  m->set_reject(true);
  m->set_rejecthint(symIn("hint", n.g.base, n.g.last()));
  m->set_logterm(symLE("hterm", BIG));
  u64 old = n.commit;
  n->Step(m);
  se_assert(n->GetRaftLog()->Committed() == old, "a rejection commits nothing");
  se_reach("reject");
  emitNode(n.r.get());
}

// other messages, ticks and reports never advance it
ENTRY other() {
  L x;
  Cfg c = family(pick("cfg", 3));
  mk(x, c);
  Node& n = x.n;
  se_assume(rule(n, c, x.match, n.commit, n.commit));
  u64 old = n.commit;
  static const int ty[] = {9, 6, 18, 11, 10, 13, 1, 12, 15};
  u64 k = pick("type", 10);
  if (k == 9) n->Tick();
  else {
    auto m = mkMsg(ty[k], k >= 6 && k < 8 ? 1 : 2 + pick("from", 2), k < 3 ? n.term : 0);
    m->set_index(symIn("mindex", n.g.base, n.g.last()));
    m->set_reject(symB("rej"));
    if (ty[k] == 15) m->add_entries()->set_data("r");
    n->Step(m);
  }
  se_assert(n->GetRaftLog()->Committed() == old, "only acknowledgements advance the commit index");
  se_reach("same");
  emitNode(n.r.get());
}

ENTRY propose() {
  L x;
  u64 k = pick("cfg", 5);
  Cfg c = k == 0 ? C1() : k == 1 ? Cfg{{1}, {}, {2}, {}} : k == 2 ? C3() : k == 3 ? C2() : Cfg{{1}, {1, 2}, {}, {}};
  mk(x, c);
  Node& n = x.n;
  se_assume(rule(n, c, x.match, n.commit, n.commit));
  u64 old = n.commit;
  auto m = mkMsg(2, 1, 0);
  m->add_entries()->set_data("x");
  if (pick("two", 2)) m->add_entries()->set_data("y");
  int cnt = m->entries_size();
  n->Step(m);
  for (int i = 0; i < cnt; i++) n.g.e.push_back(GEnt{n.term, 0, (char)('x' + i), 1});
  x.match[1] = n.g.last();
  se_assert(rule(n, c, x.match, old, n->GetRaftLog()->Committed()), "a proposal is committed at once only by a single voter");
  se_reach(c.voters().size() == 1 ? "single" : "waits");
  emitNode(n.r.get());
}

// a changed configuration changes the quorum
ENTRY conf() {
  L x;
  u64 k = pick("cfg", 4);
  Cfg c = k == 0 ? C3() : k == 1 ? CJ2() : k == 2 ? C2() : C2L();
  mk(x, c);
  Node& n = x.n;
  se_assume(rule(n, c, x.match, n.commit, n.commit));
  u64 old = n.commit;
  raftpb::ConfChangeV2 cc;
  Cfg d = c;
  if (k == 1) {
    d.o.clear();
  } else {
    u64 what = pick("what", 4);
    auto s = cc.add_changes();
    if (what == 0) {          // remove 2
      s->set_type(raftpb::ConfChangeRemoveNode);
      s->set_node_id(2);
      d.v.erase(d.v.begin() + 1);
    } else if (what == 1) {   // 4 joins as a voter
      s->set_type(raftpb::ConfChangeAddNode);
      s->set_node_id(4);
      d.v.push_back(4);
      x.match[4] = 0;
    } else if (what == 2) {   // 2 becomes a learner
      s->set_type(raftpb::ConfChangeAddLearnerNode);
      s->set_node_id(2);
      d.v.erase(d.v.begin() + 1);
      d.l.push_back(2);
    } else {                  // joint: 2 out, 4 in
      s->set_type(raftpb::ConfChangeRemoveNode);
      s->set_node_id(2);
      s = cc.add_changes();
      s->set_type(raftpb::ConfChangeAddNode);
      s->set_node_id(4);
      d.o = d.v;
      d.v.erase(d.v.begin() + 1);
      d.v.push_back(4);
      x.match[4] = 0;
    }
  }
  n->ApplyConfChange(std::move(cc));
  u64 now = n->GetRaftLog()->Committed();
  se_assert(rule(n, d, x.match, old, now), "commit follows the quorum of the new configuration");
  se_reach(now > old ? "advanced" : "same");
  emitNode(n.r.get());
}
