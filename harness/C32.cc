//@ bound one message of any of the 13 network types, any term and any of 4 senders (one no member), with arbitrary fields within what a correct peer sends, at a node of 4 configurations in any role with at most 1 stored + 1 not yet stored entry after an arbitrary base (or a snapshot waiting), followed by readies until none is left; every local event at a leader with a peer in any replication state; histories of 3 (thorough 4) calls of the interface from a fresh or bootstrapped node; two messages in a row (thorough); every printing and status function on these states
//@ assume heartbeats and acknowledgements name positions that exist; a term has one leader; snapshots and configuration changes leave a voter; read requests carry their one context entry; proposals at least one entry
//@ entry step reach=APP,VOTE,SNAP,HB,PREVOTE,NOW
//@ entry answers reach=ack,reject,hb,vote
//@ entry leader reach=prop,conf,cq,xfer
//@ entry flow reach=leader,candidate,applied
//@ entry views reach=joint,progress
//@ entry fresh reach=cursor
//@ entry at reach=in,out,beyond
//@ entry pair thorough reach=two
#include "leader.h"
#include "ready.h"

static void use(const std::string& s) { volatile size_t n = s.size(); (void)n; }
static void look(RawNode& rn) {
  Raft* r = rn.GetRaft();
  auto s = rn.GetStatus();
  use(s.config.String());
  for (auto& p : s.progress) use(p.second->String());
  rn.WithProgress([](u64 id, ProgressType t, ProgressPtr p) { use(p->String()); se_emit((u64)t + id); });
  use(r->GetRaftLog()->String());
  use(r->GetTracker().GetConfig().String());
}
// readies taken, printed, stored, applied and advanced, as an application does
static void drain(RawNode& rn, MemoryStorage& st, int max = 3, bool* applied = nullptr) {
  for (int k = 0; k < max; k++) {
    if (!rn.HasReady()) return;
    auto rd = rn.GetReady();
    use(rd->String());
    u64 cur = rd->AppliedCursor();
    if (!IsEmptySnap(rd->snapshot)) st.ApplySnapshot(rd->snapshot);
    st.Append(rd->entries);
    if (!IsEmptyHardState(rd->hard_state)) st.SetHardState(rd->hard_state);
    for (auto& e : rd->committed_entries) {
      if (applied) *applied = true;
      if (e->type() == raftpb::EntryConfChange) {
        raftpb::ConfChange c;
        c.ParseFromString(e->data());
        rn.ApplyConfChange(ConfChangeI(std::move(c)));
      } else if (e->type() == raftpb::EntryConfChangeV2) {
        raftpb::ConfChangeV2 c;
        c.ParseFromString(e->data());
        rn.ApplyConfChange(ConfChangeI(std::move(c)));
      }
    }
    rn.Advance();
    se_emit(cur != 0);
  }
}
static Cfg fam(u64 k) { return k == 0 ? C3() : k == 1 ? CJ() : k == 2 ? CL() : CN(); }

static MsgPtr conforming(Node& n, Raft* r, int ty, u64 t) {
  u64 mt = ty == 13 || ty == 15 ? 0 : symIn("mterm", 1, BIG);
  auto m = anyMsg(n, ty, mt);
  if (ty == 3 || ty == 7 || ty == 8) se_assume((mt != t) | ((r->State() != kLeader) & ((r->Lead() == 0) | (r->Lead() == m->from()))));
  if (ty == 16 && r->State() == kLeader) se_assume(mt != t);
  if (ty == 8) m->set_context(pick("hctx", 2) ? "c" : "");
  if (ty == 9) m->set_context(pick("hctx", 2) ? "c" : "");
  return m;
}
// a node of any role and what must not end it
static void start(RN& x, int cfgs, int mask = 15) {
  Node& n = x.n;
  n.o.cfg = fam(pick("cfg", cfgs));
  n.o.preVote = symB("pv");
  n.o.checkQuorum = symB("cq");
  n.o.lease = n.o.checkQuorum && symB("lease");
  n.o.pend = -1;
  n.o.applyAll = true;
  mkNode(n);
  x.role = anyRole(n, mask, 0);
  for (u64 id : n.cfg.all()) if (x.role == LEAD && id != 1) quietProgress(n, id);
  wrap(x);
  g_fatal = FATAL_BAD;
}

// requests
ENTRY step() {
  RN x;
  start(x, 4);
  static const int ty[] = {3, 5, 7, 8, 14, 15, 16, 17, 13};
  static const char* nm[] = {"APP", "VOTE", "SNAP", "HB", "NOW", "READ", "READRESP", "PREVOTE", "XFER"};
  u64 k = pick("type", 9);
  auto m = conforming(x.n, x.r(), ty[k], x.r()->Term());
  x.rn->Step(m);
  drain(*x.rn, *x.st);
  se_reach(nm[k]);
  emitNode(x.r());
}
// answers
ENTRY answers() {
  RN x;
  Node& n = x.n;
  n.o.cfg = pick("cfg", 2) ? CJ() : C3();
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  u64 k = pick("what", 4);
  x.role = anyRole(n, k == 3 ? 1 << CAND | 1 << PRE : 1 << LEAD, k == 3 ? 0 : 1);
  if (x.role == LEAD) symProgressFor(n, 2);
  wrap(x);
  Raft* r = x.r();
  if (k == 2 && pick("reading", 2)) { r->GetRaftLog()->SetCommitted(n.g.last()); x.rn->ReadIndex("c"); r->ClearMsgs(); }
  g_fatal = FATAL_BAD;
  MsgPtr m;
  if (k < 2) {
    m = mkMsg(4, 2, r->Term());
    m->set_reject(k == 1);
    m->set_index(symIdx("mindex", n.g, 0));
    se_assume(m->index() <= n.g.last());
    m->set_rejecthint(symLE("mhint", BIG));
    m->set_logterm(symLE("mlogterm", BIG));
  } else if (k == 2) {
    m = mkMsg(9, 2 + pick("from", 3), r->Term());
    m->set_context(pick("ctx", 2) ? "c" : "");
  } else {
    m = mkMsg(x.role == PRE ? 18 : 6, 2 + pick("from", 3), r->Term() + (x.role == PRE));
    m->set_reject(symB("rej"));
  }
  x.rn->Step(m);
  drain(*x.rn, *x.st, 1);
  static const char* nm[] = {"ack", "reject", "hb", "vote"};
  se_reach(nm[k]);
  emitNode(r);
}
// everything else that happens to a leader
ENTRY leader() {
  Lead l;
  LeadCfg c;
  u64 ck = pick("cfg", 4);
  c.cfg = ck == 0 ? C3() : ck == 1 ? CJ() : ck == 2 ? C2L() : C1();
  c.own = (int)pick("own1", 2);
  c.consistent = false;
  l.n.o.checkQuorum = symB("cq");
  mkLead(l, c);
  RN x;
  x.n = std::move(l.n);
  wrap(x);
  l.n.r.reset();
  Raft* r = x.r();
  Node& n = x.n;
  g_fatal = FATAL_BAD;
  u64 ev = pick("ev", 10);
  switch (ev) {
    case 0: x.rn->Propose(pick("empty", 2) ? "" : "pp"); se_reach("prop"); break;
    case 1: {
      raftpb::ConfChangeV2 cc;
      u64 k = pick("cc", 3);
      for (u64 i = 0; i < k; i++) { auto s = cc.add_changes(); s->set_type(i ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode); s->set_node_id(4 + i); }
      x.rn->ProposeConfChange(ConfChangeI(std::move(cc)));
      break;
    }
    case 2: {
      // a committed change is applied: nodes come, go or change role, the leader included
      raftpb::ConfChangeV2 cc;
      if (n.cfg.o.empty()) {
        u64 k = 1 + pick("ncc", 2);
        for (u64 i = 0; i < k; i++) { auto s = cc.add_changes(); s->set_type((raftpb::ConfChangeType)pick("cctype", 4)); s->set_node_id(pick("ccid", 5)); }
        // what is applied leaves a voter
        std::set<u64> v(n.cfg.v.begin(), n.cfg.v.end());
        for (auto& s : cc.changes()) { if (!s.node_id()) continue; if (s.type() == raftpb::ConfChangeAddNode) v.insert(s.node_id()); else if (s.type() != raftpb::ConfChangeUpdateNode) v.erase(s.node_id()); }
        if (v.empty()) se_stop();
      }
      x.rn->ApplyConfChange(ConfChangeI(std::move(cc)));
      se_reach("conf");
      break;
    }
    case 3: x.rn->ReadIndex("rd"); break;
    case 4: x.rn->TransferLeader(1 + pick("target", 4)); se_reach("xfer"); break;
    case 5: x.rn->ReportUnreachable(1 + pick("target", 4)); break;
    case 6: x.rn->ReportSnapshot(1 + pick("target", 4), pick("ok", 2) ? kFinish : kFailure); break;
    case 7: x.rn->Tick(); x.rn->Tick(); break;
    case 8: r->SetElectionElapsed(n.o.etick - 1); x.rn->Tick(); se_reach("cq"); break;
    case 9: x.rn->Campaign(); break;
  }
  // a leader that is no member any more, or was demoted, still gets messages and time
#ifdef SE_THOROUGH
  bool then = ev == 2;
#else
  bool then = ev == 2 && r->GetTracker().GetConfig().voters.IDs().count(1) == 0;
#endif
  if (then) {
    switch (pick("then", 5)) {
      case 0: break;
      case 1: r->SetElectionElapsed(n.o.etick - 1); x.rn->Tick(); break;
      case 2: x.rn->Propose("pp"); break;
      case 3: { auto m = mkMsg(4, 2, r->Term()); m->set_index(r->GetRaftLog()->LastIndex()); x.rn->Step(m); break; }
      case 4: x.rn->ReadIndex("rd"); x.rn->Step([&] { auto m = mkMsg(9, 2, r->Term()); m->set_context("rd"); return m; }()); break;
    }
  }
  drain(*x.rn, *x.st, 1);
  emitNode(r);
}

// calls of the interface, one after the other
ENTRY flow() {
  Raft::Config c;
  auto st = std::make_shared<MemoryStorage>(hlog());
  Opt o;
  o.preVote = symB("pv");
  o.checkQuorum = symB("cq");
  o.etick = 2;
  o.htick = 1;
  c = mkConf(o, st);
  g_fatal = FATAL_BAD;
  u64 how = pick("start", 3);
  std::unique_ptr<RawNode> rn;
  if (how == 0) rn = RawNode::New(c);      // no member of anything yet
  else if (how == 1) rn = RawNode::Start(c, {Peer{1, "a"}});
  else rn = RawNode::Start(c, {Peer{1, "a"}, Peer{2, "b"}});
  bool applied = false;
  if (how) drain(*rn, *st, 2, &applied);
  Raft* r = rn->GetRaft();
#ifdef SE_THOROUGH
  const int N = 4;
#else
  const int N = 3;
#endif
  for (int k = 0; k < N; k++) {
    switch (pick("call", 12)) {
      case 0: rn->Tick(); break;
      case 1: rn->Campaign(); break;
      case 2: rn->Propose("d"); break;
      case 3: {
        raftpb::ConfChange cc;
        cc.set_type(pick("rm", 2) ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddNode);
        cc.set_node_id(2);
        rn->ProposeConfChange(ConfChangeI(std::move(cc)));
        break;
      }
      case 4: rn->ReadIndex("r"); break;
      case 5: rn->TransferLeader(2); break;
      case 6: rn->ReportUnreachable(2); break;
      case 7: rn->ReportSnapshot(2, kFailure); break;
      case 8: drain(*rn, *st, 1, &applied); break;
      case 9: {
        // the vote of the other node
        auto m = mkMsg(r->State() == kPreCandidate ? 18 : 6, 2, r->Term() + (r->State() == kPreCandidate));
        rn->Step(m);
        break;
      }
      case 10: {
        // it has everything this node ever sent
        auto m = mkMsg(r->State() == kLeader ? 4 : 8, 2, r->State() == kLeader ? r->Term() : r->Term() + 1);
        if (r->State() == kLeader) m->set_index(r->GetRaftLog()->LastIndex());
        else m->set_commit(r->GetRaftLog()->LastIndex());
        rn->Step(m);
        break;
      }
      case 11: rn->TickQuiesced(); break;
    }
    if (r->State() == kLeader) se_reach("leader");
    if (r->State() == kCandidate || r->State() == kPreCandidate) se_reach("candidate");
  }
  drain(*rn, *st, 2, &applied);
  if (applied) se_reach("applied");
  look(*rn);
  emitNode(r);
}

// what prints and reports
ENTRY views() {
  RN x;
  Node& n = x.n;
  u64 k = pick("cfg", 5);
  n.o.cfg = k == 0 ? C3() : k == 1 ? CJLN() : k == 2 ? C2L() : k == 3 ? CN() : C1();
  n.o.pend = -1;
  mkNode(n);
  x.role = anyRole(n, 15, 0);
  if (x.role == LEAD && k == 0) { symProgressFor(n, 2); se_reach("progress"); }
  if (k == 1) se_reach("joint");
  wrap(x);
  g_fatal = FATAL_BAD;
  look(*x.rn);
  struct A : AckedIndexer {
    Raft* r;
    std::tuple<Index, bool> AckedIndex(u64 id) const override { auto p = r->GetTracker().GetProgress(id); return std::make_tuple(p ? p->Match() : 0, p != nullptr && id != 2); }
  } a;
  a.r = x.r();
  auto& c = x.r()->GetTracker().GetConfig();
  use(c.voters.String());
  use(c.voters.Incoming().String());
  if (x.role != LEAD) use(c.voters.Describe(a));
}
ENTRY fresh() {
  g_fatal = FATAL_BAD;
  Ready rd;
  rd.must_sync = false;
  se_assert(rd.AppliedCursor() == 0, "a ready without content applies nothing");
  use(rd.String());
  u64 i = symIn("index", 1, BIG);
  u64 k = pick("what", 3);
  if (k == 1) {
    rd.snapshot = std::make_shared<raftpb::Snapshot>();
    se_assert(rd.AppliedCursor() == 0, "nor does one with an empty snapshot");
    rd.snapshot->mutable_metadata()->set_index(i);
    se_assert(rd.AppliedCursor() == i, "a snapshot is applied");
  } else if (k == 2) {
    rd.committed_entries.push_back(mkEnt(i, 1, 'a'));
    rd.committed_entries.push_back(mkEnt(i + 1, 1, 'b'));
    se_assert(rd.AppliedCursor() == i + 1, "committed entries are applied up to the last");
  }
  rd.messages.push_back(mkMsg(3, 1, 2));
  rd.entries.push_back(mkEnt(i, 1, 'a'));
  rd.soft_state = SoftState{1, kLeader};
  use(rd.String());
  se_reach("cursor");
  se_emit(rd.AppliedCursor());
}
ENTRY at() {
  g_fatal = FATAL_BAD;
  JointConfig j(std::set<u64>{1, 2}, std::set<u64>{3});
  u64 i = sym("i");
  auto& m = j.At(i);
  size_t s = m.Size();
  se_assert(s == (i == 1 ? 1u : 2u), "the half asked for; the incoming one for anything else");
  se_reach(i == 0 ? "in" : i == 1 ? "out" : "beyond");
  se_emit(s);
}
// two messages in a row
ENTRY pair() {
  RN x;
  Node& n = x.n;
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  x.role = anyRole(n, 15, 0);
  for (u64 id : n.cfg.all()) if (x.role == LEAD && id != 1) quietProgress(n, id);
  wrap(x);
  g_fatal = FATAL_BAD;
  Raft* r = x.r();
  for (int k = 0; k < 2; k++) {
    int ty = kNetTypes[pick("type", 13)];
    u64 up = pick("up", 2);
    u64 mt = ty == 13 || ty == 15 ? 0 : r->Term() + up;
    if ((ty == 3 || ty == 7 || ty == 8) && !up && (r->State() == kLeader)) se_stop();
    auto l = r->GetRaftLog();
    auto m = mkMsg(ty, 2, mt);
    m->set_reject(pick("rej", 2));
    if (ty == 3) {
      u64 at = l->Committed() + pick("at", l->LastIndex() - l->Committed() + 2);
      m->set_index(at);
      m->set_logterm(pick("match", 2) && at <= l->LastIndex() ? termAt(r, at) : mt);
      u64 k2 = pick("nent", 3);
      for (u64 i = 0; i < k2; i++) { auto e = m->add_entries(); e->set_index(at + 1 + i); e->set_term(mt); e->set_data("E"); }
      m->set_commit(l->Committed() + pick("mc", 3));
    } else if (ty == 4) {
      m->set_index(l->FirstIndex() - 1 + pick("ai", l->LastIndex() - l->FirstIndex() + 2));
      m->set_rejecthint(pick("hint", 2) ? m->index() : 0);
      m->set_logterm(1);
    } else if (ty == 8) m->set_commit(l->Committed() + pick("hc", l->LastIndex() - l->Committed() + 1));
    else if (ty == 7) {
      m->mutable_snapshot()->mutable_metadata()->set_index(l->Committed() + pick("si", 3));
      if (m->snapshot().metadata().index() == 0) se_stop();
      m->mutable_snapshot()->mutable_metadata()->set_term(mt);
      *m->mutable_snapshot()->mutable_metadata()->mutable_conf_state() = n.cfg.cs();
    } else if (ty == 15 || ty == 16) m->add_entries()->set_data("c");
    else if (ty == 5 || ty == 17) { m->set_index(l->LastIndex()); m->set_logterm(l->LastTerm()); }
    else if (ty == 9) m->set_context(pick("ctx", 2) ? "c" : "");
    x.rn->Step(m);
    if (pick("drain", 2)) drain(*x.rn, *x.st, 1);
  }
  se_reach("two");
  emitNode(r);
}
