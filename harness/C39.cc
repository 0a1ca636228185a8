//@ bound two nodes in the same arbitrary state get the same arbitrary event (any message type; ticks; for leaders all their events) with an unrelated pair of nodes at work before the second one's turn; logs of at most 1 stored + 1 not yet stored entry (leader: and up to 2 of its own) after an arbitrary base
//@ bound a ready handed out in any of 11 situations, then one more event; two storages with at most 2 entries each; nodes with different options started one after the other in one process
//@ assume the timeout draws of the two nodes are the same
//@ entry member reach=msg,tick,hup,prop,read
//@ entry leader reach=sent,silent
//@ entry changes reach=leader,follower
//@ entry readies reach=same,kept,replaced,compacted
//@ entry storages reach=same,apart
//@ entry options reach=timers,prevote,quorum,forward,paged,limit,window,lease
#include "leader.h"
#include "ready.h"
#include "same.h"

// ---- two nodes that have nothing to do with the others -------------------------------
struct Others {
  std::shared_ptr<MemoryStorage> st[2];
  std::unique_ptr<Raft> lead, fol;
  Others() {
    for (int i = 0; i < 2; i++) {
      st[i] = std::make_shared<MemoryStorage>(hlog());
      auto snap = std::make_shared<raftpb::Snapshot>();
      snap->mutable_metadata()->set_index(100);
      snap->mutable_metadata()->set_term(50);
      *snap->mutable_metadata()->mutable_conf_state() = Cfg{{7, 8, 9}, {}, {6}, {}}.cs();
      st[i]->ApplySnapshot(snap);
      Raft::Config c;
      c.id = i ? 8 : 7;
      c.election_tick = 17;
      c.heartbeat_tick = 3;
      c.storage = st[i];
      c.max_size_per_msg = 0;
      c.max_inflight_msgs = 1;
      c.max_uncommitted_entries_size = 3;
      c.max_committed_size_per_ready = 0;
      c.pre_vote = true;
      c.check_quorum = true;
      c.read_only_option = ReadOnly::ReadOnlyOption::kLeaseBased;
      c.disable_proposal_forwarding = true;
      c.logger = hlog();
      (i ? fol : lead) = Raft::New(c);
    }
    lead->BecomeFollower(60, 0);
    lead->BecomeCandidate();
    lead->BecomeLeader();
    fol->BecomeFollower(60, 9);
  }
  MsgPtr msg(int ty, u64 from, u64 to, u64 term) { auto m = mkMsg(ty, from, term); m->set_to(to); return m; }
  void work() {
    auto ack = msg(4, 8, 7, 61);
    ack->set_index(101);
    lead->Step(ack);
    auto p = msg(2, 7, 7, 0);
    p->add_entries()->set_data("zz");
    lead->Step(p);
    auto rd = msg(15, 0, 7, 0);
    rd->add_entries()->set_data("q");
    lead->Step(rd);
    lead->Step(msg(9, 9, 7, 61));
    auto a = msg(3, 9, 8, 61);
    a->set_index(100);
    a->set_logterm(50);
    auto e = a->add_entries();
    e->set_index(101);
    e->set_term(61);
    e->set_data("yy");
    a->set_commit(101);
    fol->Step(a);
    auto v = msg(5, 9, 8, 63);
    v->set_index(200);
    v->set_logterm(63);
    v->set_context("CampaignTransfer");
    fol->Step(v);
    lead->Tick();
    fol->Tick();
    raftpb::ConfChangeV2 cc;
    auto c = cc.add_changes();
    c->set_type(raftpb::ConfChangeAddNode);
    c->set_node_id(5);
    lead->ApplyConfChange(std::move(cc));
    lead->ClearMsgs();
    fol->ClearMsgs();
  }
};

ENTRY member() {
  Node n[2];
  std::unique_ptr<Others> o;
  u64 ev = pick("event", 6);
  for (int k = 0; k < 2; k++) {
    if (k == 0) tapeRecord(); else tapePlay();
    n[k].o.cfg = C2L();
    n[k].o.preVote = symB("pv");
    n[k].o.checkQuorum = symB("cq");
    n[k].o.baseKind = 1;
    n[k].o.applyAll = true;
    mkNode(n[k]);
    anyRole(n[k], 1 << FOL | 1 << CAND | 1 << PRE);
    sameDraw(k, n[k].r.get());
    if (k == 1) {
      tapeOff();
      o = std::make_unique<Others>();
      o->work();
      tapePlay(g_tape.at);
    }
    Raft* r = n[k].r.get();
    if (ev == 0) {
      static const int types[] = {3, 4, 5, 6, 7, 8, 14, 17, 18};
      int ty = types[pick("type", 9)];
      u64 mt = n[k].term + pick("newer", 2);
      if (mt == 0) se_stop();
      r->Step(anyMsg(n[k], ty, mt));
      se_reach("msg");
    } else if (ev == 1) { r->SetElectionElapsed(symLE("elapsed", 30)); r->Tick(); se_reach("tick"); }
    else if (ev == 2) { r->Step(mkMsg(0, 1, 0)); se_reach("hup"); }
    else if (ev == 3) { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("P"); r->Step(m); se_reach("prop"); }
    else if (ev == 4) { auto m = mkMsg(15, 0, 0); m->add_entries()->set_data("R"); r->Step(m); se_reach("read"); }
    else { auto m = mkMsg(13, 3, 0); r->Step(m); }
  }
  tapeOff();
  sameNodes(n[0].r.get(), n[1].r.get());
  emitNode(n[1].r.get());
}

ENTRY leader() {
  Lead x[2];
  std::unique_ptr<Others> o;
  u64 ev = pick("event", E_N);
  if (ev == E_CONF) se_stop();
  for (int k = 0; k < 2; k++) {
    if (k == 0) tapeRecord(); else tapePlay();
    LeadCfg c;
    c.cfg = C2L();
    c.own = 1;
    c.stable = 0;
    c.applyAll = true;
    c.po.window = true;
    x[k].n.o.checkQuorum = symB("cq");
    mkLead(x[k], c);
    sameDraw(k, x[k].n.r.get());
    if (k == 1) {
      tapeOff();
      o = std::make_unique<Others>();
      o->work();
      tapePlay(g_tape.at);
    }
    LArg a;
    a.from = ev == E_BEAT || ev == E_PROP || ev == E_READ ? 0 : 2 + pick("from", 2);
    leadEvent(x[k], (int)ev, a);
  }
  tapeOff();
  sameNodes(x[0].n.r.get(), x[1].n.r.get());
  se_reach(x[0].n->Msgs().empty() ? "silent" : "sent");
  emitNode(x[1].n.r.get());
}

// membership changes
ENTRY changes() {
  Node n[2];
  std::unique_ptr<Others> o;
  raftpb::ConfState got[2];
  u64 f = pick("cfg", 4);
  int role = FOL;
  for (int k = 0; k < 2; k++) {
    if (k == 0) tapeRecord(); else tapePlay();
    n[k].o.cfg = f == 0 ? C3() : f == 1 ? C2L() : f == 2 ? CJ() : CJ2();
    n[k].o.baseKind = 1;
    n[k].o.stable = n[k].o.unstable = 0;
    mkNode(n[k]);
    role = anyRole(n[k], 1 << FOL | 1 << LEAD, 0);
    sameDraw(k, n[k].r.get());
    if (k == 1) {
      tapeOff();
      o = std::make_unique<Others>();
      o->work();
      tapePlay(g_tape.at);
    }
    raftpb::ConfChangeV2 cc;
    bool joint = f >= 2;
    u64 nc = joint ? 0 : 1 + pick("changes", 2);
    for (u64 i = 0; i < nc; i++) {
      auto c = cc.add_changes();
      c->set_type((raftpb::ConfChangeType)pick("kind", 3));
      c->set_node_id(i ? 4 : 2 + pick("node", 3));
    }
    got[k] = n[k]->ApplyConfChange(std::move(cc));
  }
  tapeOff();
  se_assert(got[0] == got[1], "the same change gives the same configuration");
  sameNodes(n[0].r.get(), n[1].r.get());
  se_reach(role == LEAD ? "leader" : "follower");
  emitNode(n[1].r.get());
}

// ---- what is handed out --------------------------------------------------------------
struct Held {
  std::vector<raftpb::Entry> ents, comm;
  std::vector<raftpb::Message> msgs;
  raftpb::HardState hard;
  raftpb::Snapshot snap;
  bool soft = false, sync = false;
  u64 lead = 0;
  int state = 0;
  size_t reads = 0;
};
static Held hold(const Ready& rd) {
  Held h;
  for (auto& e : rd.entries) h.ents.push_back(*e);
  for (auto& e : rd.committed_entries) h.comm.push_back(*e);
  for (auto& m : rd.messages) h.msgs.push_back(*m);
  h.hard = rd.hard_state;
  if (rd.snapshot) h.snap = *rd.snapshot;
  h.soft = rd.soft_state.has_value();
  if (h.soft) { h.lead = rd.soft_state->lead; h.state = (int)rd.soft_state->raft_state; }
  h.sync = rd.must_sync;
  h.reads = rd.read_states.size();
  return h;
}
static bool sameHeld(const Held& a, const Held& b) {
  if (a.ents.size() != b.ents.size() || a.comm.size() != b.comm.size() || a.msgs.size() != b.msgs.size()) return false;
  bool ok = sameHard(a.hard, b.hard) & (a.soft == b.soft) & (a.lead == b.lead) & (a.state == b.state) & (a.sync == b.sync) & (a.reads == b.reads);
  for (size_t i = 0; i < a.ents.size(); i++) ok &= sameEntry(a.ents[i], b.ents[i]);
  for (size_t i = 0; i < a.comm.size(); i++) ok &= sameEntry(a.comm[i], b.comm[i]);
  for (size_t i = 0; i < a.msgs.size(); i++) ok &= sameMessage(a.msgs[i], b.msgs[i]);
  return ok & (a.snap.metadata().index() == b.snap.metadata().index()) & (a.snap.metadata().term() == b.snap.metadata().term()) & (a.snap.data() == b.snap.data());
}
ENTRY readies() {
  RN x[2];
  std::shared_ptr<Ready> rd[2];
  Held h[2];
  std::unique_ptr<Others> o;
  u64 ev = pick("event", R_N);
  for (int k = 0; k < 2; k++) {
    if (k == 0) tapeRecord(); else tapePlay();
    x[k].n.o.cfg = C3();
    x[k].n.o.baseKind = 1;
    mkNode(x[k].n);
    x[k].role = anyRole(x[k].n, 1 << FOL | 1 << LEAD, 0);
    wrap(x[k]);
    sameDraw(k, x[k].r());
    if (k == 1) {
      tapeOff();
      o = std::make_unique<Others>();
      o->work();
      tapePlay(g_tape.at);
    }
    rnEvent(x[k], (int)ev, "a.");
    rd[k] = x[k].rn->GetReady();
    h[k] = hold(*rd[k]);
  }
  tapeOff();
  se_assert(sameHeld(h[0], h[1]), "the same node hands out the same");
  se_reach("same");
  // it is stored, and the node goes on
  RN& y = x[0];
  if (rd[0]->snapshot && !IsEmptySnap(rd[0]->snapshot)) y.st->ApplySnapshot(rd[0]->snapshot);
  y.st->Append(rd[0]->entries);
  if (pick("advance", 2)) y.rn->Advance();
  static const int evs[] = {R_APP, R_CONFLICT, R_SNAP, R_PROP, R_TICK, R_ACK};
  u64 then = pick("then", 8);
  if (then == 7) {
    // the last entry gives way to another leader's
    auto l = y.r()->GetRaftLog();
    u64 at = l->LastIndex();
    if (at <= l->Committed() || at < l->FirstIndex()) se_stop();
    auto m = mkMsg(3, 3, y.r()->Term() + 1);
    m->set_index(at - 1);
    m->set_logterm(termAt(y.r(), at - 1));
    for (u64 i = 0; i < 2; i++) { auto e = m->add_entries(); e->set_index(at + i); e->set_term(m->term()); e->set_data("W"); }
    m->set_commit(l->Committed());
    y.rn->Step(m);
    se_assert(l->LastIndex() == at + 1, "the new entries took their place");
    se_reach("replaced");
  } else if (then < 6) rnEvent(y, evs[then], "b.");
  else {
    u64 last = std::get<0>(y.st->LastIndex());
    auto cs = C2().cs();
    if (last > std::get<0>(y.st->SnapShot())->metadata().index()) y.st->CreateSnapshot(last, &cs, "D");
    y.st->Compact(last);
    se_reach("compacted");
  }
  auto held = rd[0];
  if (y.rn->HasReady()) y.rn->GetReady();
  se_assert(sameHeld(hold(*held), h[0]), "what was handed out stays as it is");
  se_reach("kept");
  emitNode(y.r());
}

// ---- storages -------------------------------------------------------------------------
struct St {
  std::shared_ptr<MemoryStorage> s;
  u64 base = 0;
  u64 t[2] = {0, 0};
  St(const char* pfx) {
    auto nm = [&](const char* x) { return std::string(pfx) + x; };
    s = std::make_shared<MemoryStorage>(hlog());
    base = symIn(nm("base").c_str(), 1, BIG);
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(base);
    snap->mutable_metadata()->set_term(symIn(nm("bterm").c_str(), 1, BIG));
    *snap->mutable_metadata()->mutable_conf_state() = C3().cs();
    s->ApplySnapshot(snap);
    EntryPtrs es;
    for (int i = 0; i < 2; i++) { t[i] = symIn(nm("eterm").c_str(), 1, BIG); es.push_back(mkEnt(base + 1 + i, t[i], (char)('a' + i))); }
    s->Append(es);
    raftpb::HardState hs;
    hs.set_term(symIn(nm("term").c_str(), 1, BIG));
    hs.set_commit(base + 1);
    s->SetHardState(hs);
  }
};
struct StView { u64 first, last, term, commit, sidx, sterm; size_t ne; std::vector<u64> terms; std::string data; raftpb::ConfState cs; };
static StView stv(MemoryStorage& s) {
  StView v;
  v.first = std::get<0>(s.FirstIndex());
  v.last = std::get<0>(s.LastIndex());
  auto is = s.InitialState();
  v.term = std::get<0>(is).term();
  v.commit = std::get<0>(is).commit();
  v.cs = std::get<1>(is);
  auto sn = std::get<0>(s.SnapShot());
  v.sidx = sn->metadata().index();
  v.sterm = sn->metadata().term();
  v.data = sn->data();
  v.ne = 0;
  if (v.last + 1 > v.first) { auto got = s.Entries(v.first, v.last + 1, ~0ull); for (auto& e : std::get<0>(got)) { v.terms.push_back(e->term()); v.ne++; } }
  return v;
}
static bool sameSt(const StView& a, const StView& b) {
  if (a.ne != b.ne || !(a.cs == b.cs) || a.data != b.data) return false;
  bool ok = (a.first == b.first) & (a.last == b.last) & (a.term == b.term) & (a.commit == b.commit) & (a.sidx == b.sidx) & (a.sterm == b.sterm);
  for (size_t i = 0; i < a.ne; i++) ok &= a.terms[i] == b.terms[i];
  return ok;
}
static void stEvent(St& x, u64 ev) {
  if (ev == 0) {
    EntryPtrs es;
    es.push_back(mkEnt(x.base + 1 + pick("at", 3), symIn("nterm", 1, BIG), 'n'));
    x.s->Append(es);
  } else if (ev == 1) x.s->Compact(x.base + pick("upto", 3));
  else if (ev == 2) { auto cs = C2().cs(); x.s->CreateSnapshot(x.base + pick("snapat", 3), &cs, "D"); }
  else if (ev == 3) {
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(x.base + 2 + pick("ahead", 2));
    snap->mutable_metadata()->set_term(symIn("nsterm", 1, BIG));
    x.s->ApplySnapshot(snap);
  } else { raftpb::HardState hs; hs.set_term(symIn("nhterm", 1, BIG)); x.s->SetHardState(hs); }
}
ENTRY storages() {
  tapeRecord();
  St a("");
  u64 ev = pick("event", 5), oev = pick("other", 5);
  stEvent(a, ev);
  StView va = stv(*a.s);
  size_t at = g_tape.at;
  (void)at;
  tapePlay();
  St b("");
  tapeOff();
  St c("c.");
  StView vb0 = stv(*b.s), vc = stv(*c.s);
  g_tape.mode = 2;
  pick("event", 5); pick("other", 5);
  size_t pos = g_tape.at;
  tapeOff();
  stEvent(c, oev);
  StView vb1 = stv(*b.s);
  se_assert(sameSt(vb0, vb1) & sameSt(stv(*a.s), va), "what happens to one storage leaves the others alone");
  se_reach("apart");
  tapePlay(pos);
  stEvent(b, ev);
  tapeOff();
  se_assert(sameSt(stv(*b.s), va), "the same storage does the same");
  se_reach("same");
  (void)vc;
  se_emit(va.first); se_emit(va.last); se_emit(va.ne);
}

// ---- every node goes by its own options, whatever other nodes were started with ------------
static int count(Raft* r, int type) { int c = 0; for (auto& m : r->Msgs()) c += (int)m->type() == type; return c; }
static MsgPtr first(Raft* r, int type) { for (auto& m : r->Msgs()) if ((int)m->type() == type) return m; return nullptr; }
ENTRY options() {
  Others o;
  o.work();
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = n.o.unstable = 0;
  n.o.etick = 10;
  n.o.htick = 2;
  n.o.maxInflight = 3;
  n.o.maxUncommitted = 8;
  u64 what = pick("what", 8);
  bool other = pick("as", 2);          // what it asks for differs from the others' or not
  if (what == 1) n.o.preVote = other;
  if (what == 2) n.o.checkQuorum = other;
  if (what == 3) n.o.noForward = other;
  if (what == 4) n.o.maxMsg = other ? 0 : ~0ull;
  if (what == 7) { n.o.lease = other; n.o.checkQuorum = other; }
  mkNode(n);
  Raft* r = n.r.get();
  if (what <= 1) {
    anyRole(n, 1 << FOL);
    u64 rt = (u64)r->RandomizedElectionTimeout();
    se_assert((rt >= 10) & (rt < 20), "its timeout is drawn from its own election timeout");
    r->Step(mkMsg(0, 1, 0));
    se_assert((count(r, 17) == (n.o.preVote ? 2 : 0)) & (count(r, 5) == (n.o.preVote ? 0 : 2)), "it asks for pre-votes if it was told to");
    se_reach(what ? "prevote" : "timers");
    return;
  }
  if (what == 3) {
    n->BecomeFollower(n.term, 2);
    auto m = mkMsg(2, 1, 0);
    m->add_entries()->set_data("P");
    bool dropped = !r->Step(m).IsOK();
    se_assert((dropped == n.o.noForward) & (count(r, 2) == (n.o.noForward ? 0 : 1)), "it forwards proposals unless it was told not to");
    se_reach("forward");
    return;
  }
  anyRole(n, 1 << LEAD, 0);
  if (what == 2) {
    for (int i = 0; i < 10; i++) {
      se_assert(r->State() == kLeader, "it leads through its own timeout");
      r->ClearMsgs();
      r->Tick();
      if (i < 9) se_assert(count(r, 8) == (i % 2 ? 2 : 0), "with heartbeats at its own interval");
    }
    se_assert((r->State() == kLeader) == !n.o.checkQuorum, "and doubts its majority if it was told to");
    se_reach("quorum");
    return;
  }
  auto prop = [&](size_t len, int k) {
    auto m = mkMsg(2, 1, 0);
    for (int i = 0; i < k; i++) m->add_entries()->set_data(std::string(len, 'x'));
    return r->Step(m);
  };
  auto ack = [&](u64 i) { auto m = mkMsg(4, 2, n.term); m->set_index(i); r->Step(m); };
  u64 li = r->GetRaftLog()->LastIndex();
  ack(li);
  r->ClearMsgs();
  if (what == 4) {
    prop(1, 3);
    int apps = 0;
    for (auto& m : r->Msgs()) apps += (int)m->type() == 3 && m->to() == 2;
    auto m = first(r, 3);
    se_assert(m != nullptr && m->entries_size() == (other ? 1 : 3), "messages are as large as it was told");
    se_reach("paged");
  } else if (what == 5) {
    bool a = prop(5, 1).IsOK(), b = prop(3, 1).IsOK(), c = prop(1, 1).IsOK();
    se_assert(a & b & !c, "its own limit holds for what is not committed");
    se_reach("limit");
  } else if (what == 6) {
    for (int i = 0; i < 5; i++) prop(1, 1);
    int apps = 0;
    for (auto& m : r->Msgs()) apps += (int)m->type() == 3 && m->to() == 2;
    se_assert(apps == 3, "as many messages are in flight as it was told");
    se_reach("window");
  } else {
    auto m = mkMsg(15, 0, 0);
    m->add_entries()->set_data("rd");
    r->Step(m);
    se_assert((r->GetReadStates().size() == (other ? 1 : 0)) & (count(r, 8) == (other ? 0 : 2)), "it trusts its lease if it was told to");
    se_reach("lease");
  }
}
