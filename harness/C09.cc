//@ bound a leader of 4 configurations with a log of up to 4 entries (stored and not) after an arbitrary base and any peer state, one message of any of the 13 network types with any term, a local event, a proposal, a transfer, a configuration change applied, or one ready taken, stored and advanced; proposals of 1-3 (thorough 4) entries of each type with arbitrary term and index fields; every reason to drop
//@ entry keep reach=leads,stepped_down,grows
//@ entry cycle reach=leads,auto
//@ entry accept reach=normal,conf,refused
//@ entry drop reach=noleader,nomember,transfer,quota,nofwd,learner
//@ entry elect reach=leader
//@ entry forward reach=propose,conf
//@ entry twice reach=both
#include "leader.h"
#include "ready.h"

static bool prefix(const LogShot& a, const LogShot& b) {
  if (b.term.size() < a.term.size()) return false;
  bool ok = (a.first == b.first) & (a.bterm == b.bterm);
  for (size_t i = 0; i < a.term.size(); i++) ok &= (a.term[i] == b.term[i]) & (a.type[i] == b.type[i]) & (a.data[i] == b.data[i]);
  return ok;
}
static Cfg cfgs(u64 k) { return k == 0 ? C3() : k == 1 ? CJ2() : k == 2 ? C2L() : C1(); }

// any single event at a leader
ENTRY keep() {
  Lead x;
  LeadCfg c;
  c.cfg = cfgs(pick("cfg", 3));
  c.own = (int)pick("own1", 2);
  c.po.window = false;
  c.po.flags = false;
  x.n.o.checkQuorum = symB("cq");
  bool local = pick("local", 2);
  int ty = local ? 0 : kNetTypes[pick("type", 13)];
  // what is known about the peer only matters to its answers
  if (!local && ty != 4 && ty != 9) { c.peer = 99; c.consistent = false; }
  mkLead(x, c);
  Raft* r = x.n.r.get();
  LogShot a = shot(r);
  u64 t = r->Term();
  bool rewrites = false;
  u64 grow = 0;
  if (local) {
    int ev = (int)pick("ev", E_N);
    LArg la;
    la.from = 2 + pick("evfrom", 2);
    if (ev == E_CONF) {
      raftpb::ConfChangeV2 cc;
      u64 k = pick("cc", 3);
      if (k || !x.n.cfg.o.empty()) {
        if (!x.n.cfg.o.empty()) k = 0;
        if (k) { auto s = cc.add_changes(); s->set_type(k == 1 ? raftpb::ConfChangeAddNode : raftpb::ConfChangeRemoveNode); s->set_node_id(k == 1 ? 6 : 1); }
        r->ApplyConfChange(std::move(cc));
      }
    } else {
      leadEvent(x, ev, la);
      if (ev == E_PROP) grow = x.n.g.e.size() - x.g.e.size();
    }
  } else {
    u64 mt = symIn("mterm", 1, BIG);
    auto m = anyMsg(x.n, ty, mt);
    // there is only one leader in a term
    if (ty == 3 || ty == 7 || ty == 8) se_assume(mt != t);
    rewrites = ty == 3 || ty == 7;
    r->Step(m);
  }
  LogShot b = shot(r);
  if (r->State() == kLeader) {
    se_assert(r->Term() == t, "it leads the term it was elected for");
    se_assert(prefix(a, b), "a leader's entries stay");
    se_assert(b.last == a.last + grow, "only proposals add to them");
    se_reach(grow ? "grows" : "leads");
  } else {
    if (!rewrites) se_assert(prefix(a, b) & (b.last == a.last), "stepping down removes nothing");
    se_assert(b.commit >= a.commit, "nor does it uncommit");
    se_reach("stepped_down");
  }
  se_assert(r->GetRaftLog()->LastIndex() == r->GetRaftLog()->FirstIndex() + b.term.size() - 1, "the log has no holes");
  emitNode(r);
}

// a ready taken, stored and advanced
ENTRY cycle() {
  RN x;
  Node& n = x.n;
  u64 k = pick("cfg", 3);
  n.o.cfg = k == 2 ? CJ2() : k ? CJ2() : C3();
  n.o.cfg.auto_leave = k == 2;
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  mkNode(n);
  x.role = anyRole(n, 1 << LEAD, (int)pick("own1", 2));
  wrap(x);
  auto l = x.r()->GetRaftLog();
  u64 c0 = l->Committed();
  l->SetCommitted(c0 + pick("commit", n.g.last() - c0 + 1));
  // the data of what is about to be applied is no configuration change
  LogShot a = shot(x.r());
  bool had = x.rn->HasReady();
  if (!had) se_stop();
  auto rd = x.rn->GetReady();
  x.st->Append(rd->entries);
  x.st->SetHardState(rd->hard_state);
  x.rn->Advance();
  LogShot b = shot(x.r());
  se_assert(x.r()->State() == kLeader && prefix(a, b), "storing and applying does not change a leader's entries");
  if (b.last != a.last) {
    se_assert(n.o.cfg.auto_leave && b.last == a.last + 1 && b.type.back() == 2 && b.term.back() == x.r()->Term() && b.data.back().empty(), "only the automatic end of a joint change is added");
    se_reach("auto");
  } else se_reach("leads");
  emitNode(x.r());
}

// kind: 0 normal, 1 old style, 2 new style change
static raftpb::Entry ent(u64 kind, char tag) {
  raftpb::Entry e;
  std::string d;
  if (kind == 0) { if (pick("empty", 2) == 0) e.set_data(std::string(1 + (tag & 1), tag)); }
  else if (kind == 1) {
    raftpb::ConfChange c;
    c.set_type(raftpb::ConfChangeAddLearnerNode);
    c.set_node_id(8);
    c.set_context(std::string(1, tag));
    c.SerializeToString(&d);
    e.set_type(raftpb::EntryConfChange);
    e.set_data(d);
  } else {
    raftpb::ConfChangeV2 c;
    auto s = c.add_changes();
    s->set_type(raftpb::ConfChangeAddNode);
    s->set_node_id(7);
    c.set_context(std::string(1, tag));
    c.SerializeToString(&d);
    e.set_type(raftpb::EntryConfChangeV2);
    e.set_data(d);
  }
  return e;
}

// what is accepted lands in the log as proposed
ENTRY accept() {
  Node n;
  n.o.cfg = cfgs(pick("cfg", 4));
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = -1;
  n.o.committedStable = false;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  auto l = n->GetRaftLog();
  bool free = pick("applied", 2);      // whether a further change is admissible
  bool joint = !n.cfg.o.empty();
  if (free) { l->SetCommitted(l->LastIndex()); l->SetApplied(l->LastIndex()); }
  // a change may also have been proposed before
  LogShot a = shot(n.r.get());
  u64 last = a.last, pend = n->PendingConfIndex(), applied = l->Applied();
  auto m = mkMsg(2, 1 + pick("from", 2), 0);
#ifdef SE_THOROUGH
  u64 k = 1 + pick("nprop", 4);
#else
  u64 k = 1 + pick("nprop", 3);
#endif
  std::vector<raftpb::Entry> want;
  for (u64 i = 0; i < k; i++) {
    u64 kind = pick("kind", 3);
    auto e = ent(kind, (char)('p' + i));
    auto f = m->add_entries();
    *f = e;
    f->set_term(sym("junk.term"));
    f->set_index(sym("junk.index"));
    if (kind) {
      if (joint || pend > applied) { e = raftpb::Entry(); se_reach("refused"); }
      else { pend = last + 1 + i; se_reach("conf"); }
    } else se_reach("normal");
    e.set_index(last + 1 + i);
    e.set_term(n->Term());
    want.push_back(e);
  }
  Status st = n->Step(m);
  se_assert(st.IsOK(), "the leader accepts it");
  LogShot b = shot(n.r.get());
  se_assert(prefix(a, b) & (b.last == last + k), "each entry is added once after what was there");
  auto [es, s2] = l->Slice(last + 1, last + 1 + k, ~0ull);
  se_assert(s2.IsOK() && es.size() == k, "and can be read");
  bool ok = true;
  for (u64 i = 0; i < k; i++) ok &= sameEntry(*es[i], want[i]);
  se_assert(ok, "in order, in the current term, with its content; a refused change becomes an empty entry");
  // it is the leader's own acknowledgement too
  auto p = n->GetTracker().GetProgress(1);
  se_assert(p->Match() == last + k, "the leader has it");
  emitNode(n.r.get());
}

// two proposals in a row
ENTRY twice() {
  Node n;
  n.o.cfg = pick("cfg", 2) ? C1() : C3();
  n.o.baseKind = -1;
  n.o.stable = 0;
  n.o.unstable = 0;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  auto l = n->GetRaftLog();
  u64 last = l->LastIndex();
  std::string all;
  for (int j = 0; j < 2; j++) {
    auto m = mkMsg(2, 1, 0);
    u64 k = 1 + pick("nprop", 2);
    for (u64 i = 0; i < k; i++) { char c = (char)('a' + all.size()); all += c; m->add_entries()->set_data(std::string(1, c)); }
    n->Step(m);
  }
  se_assert(l->LastIndex() == last + all.size(), "as many entries as proposed");
  auto [es, s2] = l->Slice(last + 1, last + 1 + all.size(), ~0ull);
  bool ok = s2.IsOK() && es.size() == all.size();
  for (size_t i = 0; i < all.size() && ok; i++) ok = (es[i]->data() == all.substr(i, 1)) & (es[i]->index() == last + 1 + i) & (es[i]->term() == n->Term());
  se_assert(ok, "in the order they were proposed");
  se_reach("both");
  emitNode(n.r.get());
}

// what is reported dropped left no trace
ENTRY drop() {
  Node n;
  u64 why = pick("why", 6);
  n.o.cfg = why == 5 ? CL() : C3();
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = -1;
  if (why == 3) n.o.maxUncommitted = symIn("limit", 1, BIG);
  n.o.noForward = why == 4;
  mkNode(n);
  Raft* r = n.r.get();
  if (why == 0) {               // nobody leads
    int k = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
    if (k == FOL) se_assume(r->Lead() == 0);
  } else if (why == 4 || why == 5) {   // must not forward, or has nobody to forward to
    anyRole(n, 1 << FOL);
    if (why == 5) se_assume(r->Lead() == 0);
  } else {
    anyRole(n, 1 << LEAD, 0);
    if (why == 1) {             // leads but was removed
      raftpb::ConfChangeV2 cc;
      auto s = cc.add_changes();
      s->set_type(raftpb::ConfChangeRemoveNode);
      s->set_node_id(1);
      r->ApplyConfChange(std::move(cc));
    }
    if (why == 2) r->Step(mkMsg(13, 2, 0));
    if (why == 3) { u64 u = symIn("outstanding", 1, BIG); se_assume(u + 3 > n.o.maxUncommitted); r->SetUncommittedSize(u); }
    r->ClearMsgs();
  }
  LogShot a = shot(r);
  Snapv sa = snapv(r);
  auto m = mkMsg(2, 1, 0);
  u64 k = 1 + pick("nprop", 2);
  for (u64 i = 0; i < k; i++) *m->add_entries() = ent(why == 3 ? 0 : pick("kind", 3), 'p');
  m->mutable_entries(0)->set_type(raftpb::EntryNormal);
  m->mutable_entries(0)->set_data("qqq");
  if (k == 1) m->mutable_entries(0)->set_data("qqq");
  Status st = r->Step(m);
  LogShot b = shot(r);
  se_assert(isErr(st, kErrProposalDropped), "it is reported dropped");
  se_assert(prefix(a, b) & (a.last == b.last), "the log is as before");
  se_assert((r->UncommittedSize() == sa.usize) & (r->GetRaftLog()->Committed() == sa.commit) & r->Msgs().empty(), "and nothing was sent");
  static const char* nm[] = {"noleader", "nomember", "transfer", "quota", "nofwd", "learner"};
  se_reach(nm[why]);
  emitNode(r);
}

// an election keeps the log and adds the empty entry of the term
ENTRY elect() {
  Node n;
  n.o.cfg = pick("cfg", 2) ? C1() : C3();
  n.o.baseKind = -1;
  n.o.unstable = -1;
  n.o.committedStable = false;
  n.o.preVote = symB("pv");
  mkNode(n);
  n.r->BecomeFollower(n.term, 0);
  LogShot a = shot(n.r.get());
  u64 t = n->Term();
  n->Step(mkMsg(0, 1, 0));
  if (n->State() == kPreCandidate) n->Step(mkMsg(18, 2, t + 1));
  if (n->State() == kCandidate) n->Step(mkMsg(6, 2, t + 1));
  if (n->State() != kLeader) se_stop();
  LogShot b = shot(n.r.get());
  se_assert(prefix(a, b) & (b.last == a.last + 1), "an election adds one entry and changes none");
  se_assert((b.term.back() == n->Term()) & (n->Term() == t + 1) & (b.type.back() == 0) & b.data.back().empty(), "an empty one of the new term");
  se_reach("leader");
  emitNode(n.r.get());
}

// through the interface of a follower
ENTRY forward() {
  RN x;
  Node& n = x.n;
  n.o.cfg = pick("cfg", 2) ? C3() : CL();
  n.o.baseKind = 1;
  mkNode(n);
  anyRole(n, 1 << FOL);
  wrap(x);
  Raft* r = x.r();
  se_assume(r->Lead() != 0);
  LogShot a = shot(r);
  bool conf = pick("conf", 2);
  Status st;
  std::string want;
  int wt = 0;
  if (conf) {
    u64 v2 = pick("v2", 2);
    if (v2) {
      raftpb::ConfChangeV2 c;
      auto s = c.add_changes();
      s->set_type(raftpb::ConfChangeRemoveNode);
      s->set_node_id(3);
      c.set_context("why");
      c.SerializeToString(&want);
      wt = 2;
      st = x.rn->ProposeConfChange(ConfChangeI(std::move(c)));
    } else {
      raftpb::ConfChange c;
      c.set_type(raftpb::ConfChangeAddNode);
      c.set_node_id(4);
      c.set_context("why");
      c.SerializeToString(&want);
      wt = 1;
      st = x.rn->ProposeConfChange(ConfChangeI(std::move(c)));
    }
  } else {
    want = "payload";
    st = x.rn->Propose(want);
  }
  LogShot b = shot(r);
  se_assert(st.IsOK() & prefix(a, b) & (a.last == b.last), "a follower does not append it itself");
  se_assert(r->Msgs().size() == 1, "it sends one message");
  auto& m = *r->Msgs()[0];
  se_assert(((int)m.type() == 2) & (m.to() == r->Lead()) & (m.entries_size() == 1), "the proposal, to the leader");
  se_assert((int)m.entries(0).type() == wt && m.entries(0).data() == want, "as it was proposed");
  se_reach(conf ? "conf" : "propose");
  emitNode(r);
}
