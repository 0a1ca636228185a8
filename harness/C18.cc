//@ bound one request, message, tick or configuration change at a leader with or without a running transfer, the target in any replication state, simple, joint and learner configurations of 3 nodes; one instruction to campaign of any term at a node in any role; log of at most 1 stored entry, the election's and one more after an arbitrary base
//@ entry request reach=none,same,self,now,later,replaced
//@ entry refuse reach=refused,again
//@ entry progress reach=told,notyet,other
//@ entry timeout reach=abandoned,running,stepsdown
//@ entry leaves reach=removed,demoted,kept,joint
//@ entry deposed reach=newer,election
//@ entry campaign reach=at_once,single,ignored,older,cannot
//@ entry whole reach=complete
#include "leader.h"

static Cfg family(u64 k) { return k == 0 ? C3() : k == 1 ? CJ2() : C2L(); }
static int count(Raft* r, int type) { int c = 0; for (auto& m : r->Msgs()) c += (int)m->type() == type; return c; }
static bool only(Raft* r, u64 to) { for (auto& m : r->Msgs()) if (m->to() != to) return false; return true; }
// starts a transfer to t (0: none) and forgets what was sent for it
static void running(Node& n, u64 t) {
  if (t) n->Step(mkMsg(13, t, 0));
  n.r->ClearMsgs();
}

ENTRY request() {
  Lead x;
  LeadCfg lc;
  lc.cfg = family(pick("cfg", 3));
  lc.own = 0;
  u64 from = 1 + pick("from", 4);
  lc.peer = from == 2 || from == 3 ? from : 2;
  mkLead(x, lc);
  Node& n = x.n;
  u64 old = pick("running", 3);
  if (old) old++;
  if (old && !n.cfg.voter(old)) se_stop();
  running(n, old);
  se_assert(n->LeadTransferee() == old, "a transfer is running");
  u64 el = symLE("elapsed", 9);
  n->SetElectionElapsed(el);
  Snapv a = snapv(n.r.get());
  PrView p0 = n.cfg.member(from) ? view(n.r.get(), from) : PrView{};
  n->Step(mkMsg(13, from, 0));
  if (!n.cfg.member(from) || n.cfg.learner(from)) {
    se_assert((snapv(n.r.get()) == a) & n->Msgs().empty(), "a request for a node that cannot lead changes nothing");
    se_reach("none");
  } else if (from == old) {
    se_assert((snapv(n.r.get()) == a) & n->Msgs().empty(), "a repeated request restarts nothing");
    se_reach("same");
  } else if (from == 1) {
    Snapv b = a;
    b.xfer = 0;
    se_assert((snapv(n.r.get()) == b) & n->Msgs().empty(), "a request for the leader only abandons what runs");
    se_reach("self");
  } else {
    Snapv b = a;
    b.xfer = from;
    b.elapsed = 0;
    se_assert(snapv(n.r.get()) == b, "the transfer runs, with a full timeout ahead");
    se_assert(only(n.r.get(), from), "only the target hears of it");
    bool up = p0.match == n.g.last();
    se_assert(count(n.r.get(), 14) == (up ? 1 : 0), "the target is told to campaign iff it has the whole log");
    if (up) {
      for (auto& m : n->Msgs()) if ((int)m->type() == 14) se_assert(m->term() == n.term, "in the leader's term");
      se_assert(n->Msgs().size() == 1, "and nothing else");
    } else if (!p0.paused && p0.state != SNAP) {
      se_assert((n->Msgs().size() == 1) | ((n->Msgs().size() == 0) & !p0.active), "it is brought up to date");
    }
    se_reach(up ? "now" : "later");
    if (old) se_reach("replaced");
  }
  emitNode(n.r.get());
}

ENTRY refuse() {
  Lead x;
  LeadCfg lc;
  lc.cfg = family(pick("cfg", 2));
  lc.own = 0;
  mkLead(x, lc);
  Node& n = x.n;
  running(n, 2 + pick("to", 2));
  auto s0 = shot(n.r.get());
  Snapv a = snapv(n.r.get());
  u64 from = 1 + pick("from", 3);
  auto m = mkMsg(2, from, 0);
  u64 k = 1 + pick("nprop", 2), ty = pick("type", 2);
  for (u64 i = 0; i < k; i++) {
    auto e = m->add_entries();
    if (ty) e->set_type(raftpb::EntryConfChangeV2);
    else e->set_data("x");
  }
  Status st = n->Step(m);
  se_assert(isErr(st, kErrProposalDropped), "a proposal during a transfer is reported dropped");
  se_assert((snapv(n.r.get()) == a) & n->Msgs().empty() & sameLog(n.r.get(), n.g), "and has no effect");
  se_reach("refused");
  // abandoned: proposals are accepted again
  n->Step(mkMsg(13, 1, 0));
  auto m2 = mkMsg(2, from, 0);
  m2->add_entries()->set_data("y");
  st = n->Step(m2);
  n.g.e.push_back(GEnt{n.term, 0, 'y', 1});
  se_assert(st.IsOK() && sameLog(n.r.get(), n.g), "afterwards proposals are accepted again");
  se_reach("again");
  emitNode(n.r.get());
}

ENTRY progress() {
  Lead x;
  LeadCfg lc;
  lc.cfg = family(pick("cfg", 2));
  lc.own = 0;
  mkLead(x, lc);
  Node& n = x.n;
  const u64 to = 2;
  running(n, to);
  PrView p0 = view(n.r.get(), to);
  static const int evs[] = {E_ACK, E_REJ, E_HB, E_BEAT, E_UNREACH, E_SNAPOK, E_SNAPFAIL, E_READ};
  int ev = evs[pick("ev", 8)];
  LArg a;
  a.from = ev == E_ACK && pick("other", 2) ? 3 : 2;
  leadEvent(x, ev, a);
  bool told = (ev == E_ACK) & (a.from == to) & (a.index > p0.match) & (a.index == n.g.last());
  se_assert(count(n.r.get(), 14) == (told ? 1 : 0), "the target is told exactly when it acknowledges the last entry");
  for (auto& m : n->Msgs()) if ((int)m->type() == 14) se_assert((m->to() == to) & (m->term() == n.term), "the target, in this term");
  se_assert((n->LeadTransferee() == to) & (n->State() == kLeader) & (n->Term() == n.term), "the transfer goes on and the leader stays until it is replaced");
  se_reach(told ? "told" : a.from == to ? "notyet" : "other");
  emitNode(n.r.get());
}

ENTRY timeout() {
  Lead x;
  LeadCfg lc;
  lc.cfg = family(pick("cfg", 2));
  lc.own = 0;
  x.n.o.checkQuorum = pick("cq", 2);
  lc.po.states[0] = lc.po.states[2] = false;
  mkLead(x, lc);
  Node& n = x.n;
  u64 to = 2 + pick("to", 2);
  running(n, to);
  u64 el = symLE("elapsed", 9);
  n->SetElectionElapsed(el);
  n->Tick();
  bool due = el + 1 >= n.o.etick;
  if (n->State() != kLeader) {
    se_assert(due & n.o.checkQuorum, "only a failed quorum check deposes it");
    se_assert(n->LeadTransferee() == 0, "no transfer without leadership");
    se_reach("stepsdown");
  } else {
    se_assert(n->LeadTransferee() == (due ? 0 : to), "abandoned after exactly one timeout");
    n.r->ClearMsgs();
    auto m = mkMsg(2, 1, 0);
    m->add_entries()->set_data("y");
    Status st = n->Step(m);
    se_assert(st.IsOK() == due, "proposals are refused until then");
    se_reach(due ? "abandoned" : "running");
  }
  emitNode(n.r.get());
}

ENTRY leaves() {
  Lead x;
  LeadCfg lc;
  u64 k = pick("cfg", 3);
  // simple of 3, simple of 4, joint where 3 is on its way out
  lc.cfg = k == 0 ? C3() : k == 1 ? Cfg{{1, 2, 3, 4}, {}, {}, {}} : Cfg{{1, 2}, {1, 2, 3}, {}, {}};
  lc.own = 0;
  lc.po.states[0] = lc.po.states[2] = false;
  mkLead(x, lc);
  Node& n = x.n;
  u64 to = 2 + pick("to", 2);
  running(n, to);
  u64 el = symLE("elapsed", 8);
  n->SetElectionElapsed(el);
  raftpb::ConfChangeV2 cc;
  std::set<u64> voters = n.cfg.voters();
  u64 c = pick("change", 5);
  if (k == 2) {
    if (c) se_stop();
    voters.erase(3);      // an empty change leaves the joint configuration
  } else {
    auto ch = [&](int t, u64 id) { auto s = cc.add_changes(); s->set_type((raftpb::ConfChangeType)t); s->set_node_id(id); };
    if (c == 0) { ch(raftpb::ConfChangeRemoveNode, 3); voters.erase(3); }
    if (c == 1) { ch(raftpb::ConfChangeAddLearnerNode, 3); voters.erase(3); }
    if (c == 2) { ch(raftpb::ConfChangeAddNode, 5); }
    if (c == 3) { ch(raftpb::ConfChangeAddLearnerNode, 5); }
    if (c == 4) { ch(raftpb::ConfChangeRemoveNode, 3); ch(raftpb::ConfChangeAddNode, 5); }   // joint: 3 still votes
  }
  n->ApplyConfChange(std::move(cc));
  bool still = voters.count(to);
  se_assert(n->LeadTransferee() == (still ? to : 0), "the transfer ends iff the target no longer votes");
  se_assert((n->State() == kLeader) & (n->ElectionElapsed() == (int64_t)el), "nothing else about it changes");
  se_assert(count(n.r.get(), 14) == 0, "nobody is told to campaign");
  n.r->ClearMsgs();
  auto m = mkMsg(2, 1, 0);
  m->add_entries()->set_data("y");
  se_assert(n->Step(m).IsOK() == !still, "proposals are accepted again iff it ended");
  if (still) { se_reach("kept"); if (c == 4) se_reach("joint"); }
  else se_reach(c == 1 ? "demoted" : "removed");
  emitNode(n.r.get());
}

ENTRY deposed() {
  Lead x;
  LeadCfg lc;
  lc.own = 0;
  lc.po.states[0] = lc.po.states[2] = false;
  mkLead(x, lc);
  Node& n = x.n;
  running(n, 2 + pick("to", 2));
  int ty = kNetTypes[pick("type", 13)];
  if (ty == 13 || ty == 15 || ty == 14) se_stop();
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt > n.term);
  auto m = anyMsg(n, ty, mt);
  if (ty == 18) m->set_reject(true);
  n->Step(m);
  if (ty == 17) {
    se_assert(n->LeadTransferee() != 0, "a pre-vote request deposes nobody");
  } else {
    se_assert((n->State() == kFollower) & (n->LeadTransferee() == 0), "a deposed leader transfers nothing");
    se_reach("newer");
    // it wins the next election: nothing is left over
    if (ty == 5 && n->GetTracker().GetProgress(1)) {
      n->ClearMsgs();
      n->Step(mkMsg(0, 1, 0));
      auto v = mkMsg(6, 3, n->Term());
      n->Step(v);
      if (n->State() == kLeader) {
        se_assert(n->LeadTransferee() == 0, "a new leadership starts without a transfer");
        n->ClearMsgs();
        auto p = mkMsg(2, 1, 0);
        p->add_entries()->set_data("y");
        se_assert(n->Step(p).IsOK(), "and accepts proposals");
        se_reach("election");
      }
    }
  }
  emitNode(n.r.get());
}

ENTRY campaign() {
  Node n;
  u64 k = pick("cfg", 4);
  n.o.cfg = k == 0 ? C3() : k == 1 ? CJ() : k == 2 ? C1() : CL();
  n.o.preVote = pick("pv", 2);
  n.o.checkQuorum = symB("cq");
  n.o.baseKind = 1;
  n.o.unstable = 0;
  n.o.confAmong = true;
  n.o.symCommit = true;
  mkNode(n);
  anyRole(n, 15, 0);
  u64 t = n->Term();
  se_assume(t < BIG);
  bool pendingConf = false;
  for (size_t i = 0; i < n.g.e.size(); i++) {
    u64 p = n.g.base + 1 + i;
    pendingConf |= (n.g.e[i].type != 0) & (p > n.applied) & (p <= n.commit);
  }
  u64 mt = pick("newer", 2) ? symIn("mterm", 1, BIG) : t;
  se_assume(mt >= 1);
  auto m = mkMsg(14, 2 + pick("from", 2), mt);
  n->SetElectionElapsed(symLE("elapsed", 9));
  Snapv a = snapv(n.r.get());
  n->Step(m);
  if (mt < t) {
    se_assert((snapv(n.r.get()) == a) & n->Msgs().empty(), "an instruction of an older term is ignored");
    se_reach("older");
  } else if (mt == t && a.state != (int)kFollower) {
    se_assert((snapv(n.r.get()) == a) & n->Msgs().empty(), "candidates and leaders ignore it");
    se_reach("ignored");
  } else if (!n.cfg.voter(1) || pendingConf) {
    se_assert((n->State() == kFollower) & (n->Term() == mt) & n->Msgs().empty(), "who must not campaign does not");
    se_reach("cannot");
  } else if (n.cfg.voters().size() == 1) {
    se_assert((n->State() == kLeader) & (n->Term() == mt + 1), "a single voter leads at once");
    se_reach("single");
  } else {
    se_assert((n->State() == kCandidate) & (n->Term() == mt + 1) & (n->Vote() == 1) & (n->Lead() == 0), "the target campaigns at once, without a pre-vote");
    std::set<u64> to, want = n.cfg.voters();
    want.erase(1);
    bool ok = n->Msgs().size() == want.size();
    for (auto& r : n->Msgs()) {
      to.insert(r->to());
      ok &= ((int)r->type() == 5) & (r->term() == mt + 1) & (r->context() == "CampaignTransfer") & (r->index() == n.g.last()) & (r->logterm() == n.g.lastTerm());
    }
    se_assert(ok && to == want, "asking every other voter, marked as a transfer");
    se_reach("at_once");
  }
  emitNode(n.r.get());
}

// a whole transfer among three nodes that all heard from the leader just now, with
// check-quorum and pre-vote on: it goes through in one round
ENTRY whole() {
  Lead x;
  LeadCfg lc;
  lc.own = 0;
  lc.stable = 0;
  x.n.o.checkQuorum = x.n.o.preVote = true;
  lc.po.states[0] = lc.po.states[2] = false;
  mkLead(x, lc);
  Node& n = x.n;
  GLog g = n.g;
  std::vector<std::unique_ptr<Node>> f;
  for (u64 id = 2; id <= 3; id++) {
    f.push_back(std::make_unique<Node>());
    Node& p = *f.back();
    p.o.id = id;
    p.o.checkQuorum = p.o.preVote = true;
    p.cfg = p.o.cfg;
    p.st = std::make_shared<MemoryStorage>(hlog());
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(g.base);
    s->mutable_metadata()->set_term(g.bterm);
    *s->mutable_metadata()->mutable_conf_state() = p.cfg.cs();
    p.st->ApplySnapshot(s);
    raftpb::HardState hs;
    hs.set_term(n.term); hs.set_vote(1); hs.set_commit(g.base);
    p.st->SetHardState(hs);
    p.conf = mkConf(p.o, p.st);
    p.r = Raft::New(p.conf);
    auto hb = mkMsg(8, 1, n.term);
    hb->set_to(id);
    hb->set_commit(g.base);
    p->Step(hb);
    p->SetElectionElapsed(symLE("elapsed", 9));
    p->ClearMsgs();
  }
  // node 2 has the whole log
  n->Step(mkMsg(13, 2, 0));
  auto& t = *f[0];
  auto& u = *f[1];
  auto deliver = [&](Node& from, u64 to, Node& dst) {
    auto ms = from->Msgs();
    for (auto& m : ms) if (m->to() == to) { auto c = std::make_shared<raftpb::Message>(*m); dst->Step(c); }
  };
  bool behind = pick("behind", 2);
  if (behind) {
    // first the log
    auto ap = mkMsg(3, 1, n.term);
    ap->set_to(2); ap->set_index(g.base); ap->set_logterm(g.bterm);
    auto e = ap->add_entries(); e->set_index(g.last()); e->set_term(n.term);
    t->Step(ap);
    t->GetRaftLog()->StableTo(g.last(), n.term);
    deliver(t, 1, *&n);
    t->ClearMsgs();
    se_assert(count(n.r.get(), 14) == 1, "told once");
    deliver(n, 2, t);
  } else {
    se_stop();
  }
  se_assert((t->State() == kCandidate) & (t->Term() == n.term + 1), "the target campaigns");
  auto asked = t->Msgs();
  t->ClearMsgs();
  u->ClearMsgs();
  for (auto& m : asked) if (m->type() == 5 && m->to() == 3) u->Step(std::make_shared<raftpb::Message>(*m));
  se_assert(u->Msgs().size() == 1 && !u->Msgs()[0]->reject() && u->Vote() == 2, "others vote for it despite their leader");
  for (auto& m : u->Msgs()) t->Step(std::make_shared<raftpb::Message>(*m));
  se_assert(t->State() == kLeader, "and it leads");
  n->ClearMsgs();
  for (auto& m : t->Msgs()) if (m->to() == 1) n->Step(std::make_shared<raftpb::Message>(*m));
  se_assert((n->State() == kFollower) & (n->Lead() == 2) & (n->Term() == t->Term()), "the old leader follows it");
  se_reach("complete");
  emitNode(n.r.get());
  emitNode(t.r.get());
}
