//@ bound one message of any of the 19 types, any term and any of 4 senders (one unknown) at a node in any role; one proposal (1-2 entries of any type, data and context), transfer or read request; log of at most 1 stored + 1 not yet stored entry after an arbitrary base
//@ entry named reach=leader,follower,candidate
//@ entry filter reach=local,unknown,known,request
//@ entry proposal reach=forwarded,noleader,nofwd,candidate
//@ entry transfer reach=forwarded,dropped
//@ entry read reach=forwarded,dropped
//@ entry interface reach=propose,conf,transfer,read,unreachable,campaign
//@ entry chain reach=accepted
#include "leader.h"
#include "ready.h"
#include "same.h"

static bool local(int t) { return t == 0 || t == 1 || t == 10 || t == 11 || t == 12; }
static bool response(int t) { return t == 4 || t == 6 || t == 9 || t == 18; }

ENTRY filter() {
  RN x;
  Node& n = x.n;
  n.o.cfg = pick("cfg", 2) ? C2L() : C3();
  n.o.preVote = symB("pv");
  n.o.checkQuorum = symB("cq");
  n.o.baseKind = 1;
  mkNode(n);
  x.role = anyRole(n, 15, 0);
  for (u64 id : n.cfg.all()) if (x.role == LEAD && id != 1) quietProgress(n, id);
  wrap(x);
  Raft* r = x.r();
  int ty = (int)pick("type", 19);
  u64 t = r->Term();
  u64 mt = symIn("mterm", 1, BIG);
  bool isLocal = local(ty);
  MsgPtr m;
  if (isLocal || ty == 2) {
    u64 from = 1 + pick("sender", 4);
    m = mkMsg(ty, from, ty == 2 ? 0 : mt);
    m->set_reject(symB("rej"));
    if (ty == 2) m->add_entries()->set_data("p");
  } else {
    if (ty == 13 || ty == 15) mt = 0;
    m = anyMsg(n, ty, mt);
    if (ty == 3 || ty == 7 || ty == 8) se_assume((mt != t) | ((r->State() != kLeader) & ((r->Lead() == 0) | (r->Lead() == m->from()))));
  }
  u64 from = m->from();
  std::vector<PrView> pv;
  for (auto& p : r->GetTracker().GetProgressMap()) pv.push_back(view(r, p.first));
  Snapv a = snapv(r);
  bool rej = m->reject();
  Status st = x.rn->Step(m);
  Snapv b = snapv(r);
  bool unknown = response(ty) && !n.cfg.member(from);
  if (isLocal || unknown) {
    se_assert(isErr(st, isLocal ? kErrStepLocalMsg : kErrStepPeerNotFound), "refused");
    se_assert((a == b) & r->Msgs().empty() & sameLog(r, n.g), "without any effect");
    size_t i = 0;
    for (auto& p : r->GetTracker().GetProgressMap()) { auto v = view(r, p.first); se_assert((v.match == pv[i].match) & (v.next == pv[i].next) & (v.active == pv[i].active) & (v.state == pv[i].state) & (v.probeSent == pv[i].probeSent), "on anything known about peers"); i++; }
    se_reach(isLocal ? "local" : "unknown");
  } else {
    se_assert(!isErr(st, kErrStepLocalMsg) && !isErr(st, kErrStepPeerNotFound), "any other message is passed on");
    // and has the effect its term demands
    bool leased = n.o.checkQuorum & (a.lead != 0) & (a.elapsed < (int64_t)n.o.etick);
    bool may = ty != 17 && !(ty == 18 && !rej) && !(ty == 5 && leased);
    if (mt > t && may && ty != 2 && ty != 14) se_assert(r->Term() == mt, "a newer term is adopted");
    if (ty == 2 && a.state == (int)kLeader) se_assert(b.last == a.last + 1, "a proposal reaches the leader's log");
    if ((ty == 4 || ty == 9) && mt == t && a.state == (int)kLeader) se_assert(r->GetTracker().GetProgress(from)->RecentActive(), "an answer is counted");
    if (ty == 8 && mt >= t) se_assert(r->Msgs().size() == 1 && (int)r->Msgs()[0]->type() == 9, "a heartbeat is answered");
    if (ty == 5 && mt == t) se_assert(r->Msgs().size() == 1 && (int)r->Msgs()[0]->type() == 6, "a vote request is answered");
    if (ty == 3 && mt >= t) se_assert(r->Msgs().size() == 1 && (int)r->Msgs()[0]->type() == 4, "an append is answered");
    se_reach(response(ty) ? "known" : "request");
  }
  emitNode(r);
}

static void mkF(Node& n, int mask) {
  n.o.cfg = pick("cfg", 3) == 2 ? CL() : C3();
  n.o.baseKind = 1;
  n.o.stable = 0;
  mkNode(n);
  anyRole(n, mask);
}
ENTRY proposal() {
  Node n;
  n.o.noForward = pick("nofwd", 2);
  mkF(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 from = pick("from", 4);     // 0: this node's own interface leaves it open
  auto m = mkMsg(2, from, 0);
  u64 k = 1 + pick("nprop", 2);
  std::vector<raftpb::Entry> want;
  for (u64 i = 0; i < k; i++) {
    auto e = m->add_entries();
    int ty = (int)pick("etype", 3);
    if (ty) e->set_type((raftpb::EntryType)ty);
    if (pick("data", 2)) e->set_data(std::string(1 + i, (char)('p' + i)));
    want.push_back(*e);
  }
  m->set_context("ctx");
  Snapv a = snapv(r);
  Status st = r->Step(m);
  se_assert((snapv(r) == a) & sameLog(r, n.g), "a proposal changes nothing at who does not lead");
  u64 lead = a.lead;
  if (lead == 0 || n.o.noForward) {
    se_assert(isErr(st, kErrProposalDropped) && r->Msgs().empty(), "without a leader, or without forwarding, it is refused");
    se_reach(a.state != (int)kFollower ? "candidate" : lead == 0 ? "noleader" : "nofwd");
  } else {
    se_assert(st.IsOK() && r->Msgs().size() == 1, "a follower hands it on, once");
    auto& f = *r->Msgs()[0];
    se_assert(((int)f.type() == 2) & (f.to() == lead) & (f.from() == (from ? from : 1)) & (f.term() == 0), "to its leader, as from its origin");
    bool ok = (u64)f.entries_size() == k && f.context() == "ctx";
    for (u64 i = 0; i < k && ok; i++) ok &= f.entries(i).data() == want[i].data() && f.entries(i).type() == want[i].type();
    se_assert(ok, "its content unchanged");
    se_reach("forwarded");
  }
  emitNode(r);
}
ENTRY transfer() {
  Node n;
  mkF(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 from = 1 + pick("from", 3);
  auto m = mkMsg(13, from, 0);
  Snapv a = snapv(r);
  Status st = r->Step(m);
  se_assert(st.IsOK() & (snapv(r) == a), "a transfer request changes nothing at who does not lead");
  if (a.lead == 0) {
    se_assert(r->Msgs().empty(), "without a leader it is dropped");
    se_reach("dropped");
  } else {
    se_assert(r->Msgs().size() == 1, "a follower hands it on");
    auto& f = *r->Msgs()[0];
    se_assert(((int)f.type() == 13) & (f.to() == a.lead) & (f.from() == from) & (f.term() == a.term), "to its leader, for the same target");
    se_reach("forwarded");
  }
  emitNode(r);
}
ENTRY read() {
  Node n;
  mkF(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 from = pick("from", 3);
  auto m = mkMsg(15, from, 0);
  m->add_entries()->set_data("read-context");
  Snapv a = snapv(r);
  Status st = r->Step(m);
  se_assert(st.IsOK() & (snapv(r) == a), "a read request changes nothing at who does not lead");
  if (a.lead == 0) {
    se_assert(r->Msgs().empty(), "without a leader it is dropped");
    se_reach("dropped");
  } else {
    se_assert(r->Msgs().size() == 1, "a follower hands it on");
    auto& f = *r->Msgs()[0];
    se_assert(((int)f.type() == 15) & (f.to() == a.lead) & (f.from() == (from ? from : 1)), "to its leader");
    se_assert(f.entries_size() == 1 && f.entries(0).data() == "read-context", "with its content");
    se_reach("forwarded");
  }
  emitNode(r);
}

// the application's requests arrive as they are meant
ENTRY interface() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.applyAll = true;
  mkNode(n);
  toFollower(n);
  se_assume(n->Term() >= 1 && n->Term() < BIG);
  wrap(x);
  Raft* r = x.r();
  u64 lead = r->Lead();
  u64 k = pick("call", 6);
  Status st = Status::OK();
  std::string data = pick("long", 2) ? std::string("some data") : std::string();
  switch (k) {
    case 0: st = x.rn->Propose(data); break;
    case 1: {
      raftpb::ConfChange c;
      c.set_type(raftpb::ConfChangeRemoveNode);
      c.set_node_id(3);
      c.set_context("c");
      st = x.rn->ProposeConfChange(ConfChangeI(std::move(c)));
      break;
    }
    case 2: x.rn->TransferLeader(2 + pick("to", 2)); break;
    case 3: x.rn->ReadIndex(data); break;
    case 4: x.rn->ReportUnreachable(2); break;
    default: st = x.rn->Campaign(); break;
  }
  auto& ms = r->Msgs();
  if (k == 4) { se_assert(ms.empty(), "reports concern leaders"); se_reach("unreachable"); return; }
  if (k == 5) { se_assert((r->State() == kCandidate) && ms.size() == 2, "asked to campaign, it does"); se_reach("campaign"); return; }
  if (lead == 0) {
    se_assert(ms.empty() && st.IsOK() == (k > 1), "no leader to ask");
    return;
  }
  se_assert(st.IsOK() && ms.size() == 1 && ms[0]->to() == lead, "one message to the leader");
  auto& m = *ms[0];
  if (k == 0) { se_assert(((int)m.type() == 2) & (m.from() == 1) && m.entries_size() == 1 && m.entries(0).data() == data && (int)m.entries(0).type() == 0, "the proposal"); se_reach("propose"); }
  if (k == 1) {
    raftpb::ConfChange c;
    se_assert(m.entries_size() == 1 && (int)m.entries(0).type() == 1 && c.ParseFromString(m.entries(0).data()), "the configuration change");
    se_assert((int)c.type() == raftpb::ConfChangeRemoveNode && c.node_id() == 3 && c.context() == "c", "as it was proposed");
    se_reach("conf");
  }
  if (k == 2) { se_assert(((int)m.type() == 13) & ((m.from() == 2) | (m.from() == 3)), "the target"); se_reach("transfer"); }
  if (k == 3) { se_assert((int)m.type() == 15 && m.entries_size() == 1 && m.entries(0).data() == data, "the read"); se_reach("read"); }
  emitNode(r);
}

// what a call of the interface does is what the message it stands for does
ENTRY named() {
  RN x[2];
  Status st[2] = {Status::OK(), Status::OK()};
  u64 call = pick("call", 8);
  int role = FOL;
  for (int k = 0; k < 2; k++) {
    if (k == 0) tapeRecord(); else tapePlay();
    Node& n = x[k].n;
    n.o.cfg = C3();
    n.o.baseKind = 1;
    n.o.stable = 0; n.o.unstable = 1; n.o.applyAll = true;
    mkNode(n);
    role = anyRole(n, 1 << FOL | 1 << CAND | 1 << LEAD, 0);
    wrap(x[k]);
    Raft* r = x[k].r();
    sameDraw(k, r);
    if (role == LEAD) {
      auto pr = r->GetTracker().GetProgress(2);
      u64 how = pick("progress", 3);
      if (how == 1) pr->BecomeReplicate();
      if (how == 2) pr->BecomeSnapshot(symIn("pending", 1, BIG));
    }
    u64 who = 2 + pick("who", 2);
    bool bad = pick("bad", 2);
    bool raw = k == 0;
    RawNode& rn = *x[k].rn;
    auto m = mkMsg(2, 1, 0);
    switch (call) {
      case 0: if (raw) rn.TransferLeader(who); else { m->set_type(raftpb::MsgTransferLeader); m->set_from(who); r->Step(m); } break;
      case 1: if (raw) rn.ReadIndex("q"); else { m->set_type(raftpb::MsgReadIndex); m->set_from(0); m->add_entries()->set_data("q"); r->Step(m); } break;
      case 2: if (raw) rn.ReportUnreachable(who); else { m->set_type(raftpb::MsgUnreachable); m->set_from(who); r->Step(m); } break;
      case 3: if (raw) rn.ReportSnapshot(who, bad ? kFailure : kFinish); else { m->set_type(raftpb::MsgSnapStatus); m->set_from(who); m->set_reject(bad); r->Step(m); } break;
      case 4: if (raw) st[k] = rn.Campaign(); else { m->set_type(raftpb::MsgHup); st[k] = r->Step(m); } break;
      case 5: if (raw) st[k] = rn.Propose("P"); else { m->add_entries()->set_data("P"); st[k] = r->Step(m); } break;
      case 6: {
        raftpb::ConfChange c;
        c.set_type(raftpb::ConfChangeRemoveNode);
        c.set_node_id(who);
        if (raw) st[k] = rn.ProposeConfChange(ConfChangeI(std::move(c)));
        else { auto e = m->add_entries(); e->set_type(raftpb::EntryConfChange); e->set_data(c.SerializeAsString()); st[k] = r->Step(m); }
        break;
      }
      default: if (raw) rn.Tick(); else r->Tick();
    }
  }
  tapeOff();
  // the sender of a proposal the node makes itself is of no account
  for (auto& y : x) for (auto& m : y.r()->Msgs()) if ((int)m->type() == 2) m->set_from(1);
  sameNodes(x[0].r(), x[1].r());
  se_assert(st[0].IsOK() == st[1].IsOK(), "with the same verdict");
  se_reach(role == LEAD ? "leader" : role == FOL ? "follower" : "candidate");
  emitNode(x[0].r());
}

// from a follower's interface to a real leader's log
ENTRY chain() {
  Lead x;
  LeadCfg lc;
  lc.own = 0;
  lc.stable = 0;
  lc.po.states[0] = lc.po.states[2] = false;
  mkLead(x, lc);
  Node& n = x.n;
  Node f;
  f.o.id = 3;
  f.cfg = f.o.cfg;
  f.st = std::make_shared<MemoryStorage>(hlog());
  auto s = std::make_shared<raftpb::Snapshot>();
  s->mutable_metadata()->set_index(n.g.base);
  s->mutable_metadata()->set_term(n.g.bterm);
  *s->mutable_metadata()->mutable_conf_state() = f.cfg.cs();
  f.st->ApplySnapshot(s);
  f.conf = mkConf(f.o, f.st);
  f.r = Raft::New(f.conf);
  f.r->BecomeFollower(n.term, 1);
  RawNode fr(std::move(f.r)), lr(std::move(n.r));
  Raft* r = lr.GetRaft();
  u64 last = r->GetRaftLog()->LastIndex();
  bool conf = pick("conf", 2);
  raftpb::Entry sent;
  if (conf) {
    raftpb::ConfChangeV2 c;
    auto ch = c.add_changes();
    ch->set_type(raftpb::ConfChangeAddLearnerNode);
    ch->set_node_id(8);
    c.SerializeToString(sent.mutable_data());
    sent.set_type(raftpb::EntryConfChangeV2);
    se_assert(fr.ProposeConfChange(ConfChangeI(std::move(c))).IsOK(), "taken");
    r->GetRaftLog()->SetCommitted(last);
    r->GetRaftLog()->SetApplied(last);
  } else {
    sent.set_data("hello");
    se_assert(fr.Propose("hello").IsOK(), "taken");
  }
  auto ms = fr.GetRaft()->Msgs();
  se_assert(ms.size() == 1 && ms[0]->to() == 1, "on its way");
  Status st = lr.Step(std::make_shared<raftpb::Message>(*ms[0]));
  se_assert(st.IsOK() && r->GetRaftLog()->LastIndex() == last + 1, "accepted");
  auto es = std::get<0>(r->GetRaftLog()->Slice(last + 1, last + 2, ~0ull));
  se_assert(es.size() == 1 && es[0]->data() == sent.data() && es[0]->type() == sent.type() && es[0]->term() == n.term, "as it was proposed");
  se_reach("accepted");
  emitNode(r);
}
