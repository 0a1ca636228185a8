//@ bound one event at a leader whose log (2 stored entries + the election's + at most 1 more after an arbitrary base) is compacted anywhere up to what is applied, with a snapshot anywhere from there to what is applied, available or not; one peer in any replication state and activity; then one report and one heartbeat answer
//@ entry sends reach=snapshot,append,inactive,unavailable,paused
//@ entry silence reach=quiet,resumed,again
//@ entry reports reach=success,failure,other
//@ entry interface reach=success,failure
//@ entry added reach=snapshot
//@ entry recover reach=caught
#include "leader.h"

struct SnapStore : MemoryStorage {
  raftpb::ConfState cs;
  bool unavailable = false;
  using MemoryStorage::MemoryStorage;
  std::tuple<SnapshotPtr, Status> SnapShot() override {
    if (unavailable) return std::make_tuple(nullptr, Status::Error(kErrSnapshotTemporarilyUnavailable));
    return MemoryStorage::SnapShot();
  }
};
struct SL {
  Lead x;
  SnapStore* st = nullptr;
  u64 compact = 0, sidx = 0;
  u64 first() { return compact + 1; }
};
static void mkSL(SL& s, LeadCfg lc, bool mayFail) {
  Node& n = s.x.n;
  n.o.cfg = lc.cfg;
  // the log lives in a storage of our own
  auto store = std::make_shared<SnapStore>(hlog());
  s.st = store.get();
  n.cfg = n.o.cfg;
  n.g.base = symIn("base", 1, BIG);
  n.g.bterm = symIn("bterm", 1, BIG);
  auto snap = std::make_shared<raftpb::Snapshot>();
  snap->mutable_metadata()->set_index(n.g.base);
  snap->mutable_metadata()->set_term(n.g.bterm);
  *snap->mutable_metadata()->mutable_conf_state() = n.o.cfg.cs();
  snap->set_data("BASE");
  store->ApplySnapshot(snap);
  u64 t = n.g.bterm;
  for (int i = 0; i < 2; i++) {
    u64 v = symIn("eterm", 1, BIG);
    se_assume(v >= t);
    t = v;
    n.g.e.push_back(GEnt{v, 0, (char)('a' + i), 1});
  }
  store->Append(gEnts(n, 0, 2));
  n.nstable = 2;
  n.term = symIn("term", 1, BIG);
  se_assume(n.term >= t);
  u64 c = pick("commit", 3);
  n.commit = n.applied = n.g.base + c;
  raftpb::HardState hs;
  hs.set_term(n.term); hs.set_commit(n.commit);
  store->SetHardState(hs);
  n.st = store;
  n.conf = mkConf(n.o, store);
  n.conf.applied = n.applied;
  n.r = Raft::New(n.conf);
  u64 sk = pick("snap", c + 1), ck = pick("compact", sk + 1);
  s.sidx = n.g.base + sk;
  s.compact = n.g.base + ck;
  auto cs = n.o.cfg.cs();
  if (sk) store->CreateSnapshot(s.sidx, &cs, "SNAP");
  if (ck) store->Compact(s.compact);
  if (mayFail) store->unavailable = pick("unavailable", 2);
  anyRole(n, 1 << LEAD, lc.own);
  symProgressFor(n, lc.peer, lc.po);
  se_assume(commitSettled(n));
  for (u64 id : lc.cfg.all()) s.x.pv.emplace(id, view(n.r.get(), id));
  s.x.commit = n.commit;
  s.x.g = n.g;
}
static MsgPtr sentTo(Raft* r, u64 to, int type) { for (auto& m : r->Msgs()) if (m->to() == to && (int)m->type() == type) return m; return nullptr; }
static int countTo(Raft* r, u64 to, int type) { int c = 0; for (auto& m : r->Msgs()) c += m->to() == to && (int)m->type() == type; return c; }
static void checkSnap(SL& s, const raftpb::Message& m) {
  Node& n = s.x.n;
  auto& sn = m.snapshot();
  se_assert((m.from() == 1) & (m.term() == n.term), "from the leader, in its term");
  se_assert((sn.metadata().index() == s.sidx) & (sn.metadata().term() == n.g.term(s.sidx)), "it is the latest snapshot");
  se_assert(sn.data() == (s.sidx == n.g.base ? "BASE" : "SNAP"), "with its data");
  se_assert(sn.metadata().conf_state() == n.o.cfg.cs(), "and its configuration");
  auto v = view(n.r.get(), m.to());
  se_assert((v.state == SNAP) & (v.pending == s.sidx) & v.paused, "the peer gets nothing more until it is through");
}

ENTRY sends() {
  SL s;
  LeadCfg lc;
  lc.cfg = pick("cfg", 2) ? C2L() : C3();
  lc.peer = lc.cfg.learner(3) ? 3 : 2;
  lc.own = 0;
  mkSL(s, lc, true);
  Node& n = s.x.n;
  const u64 p = lc.peer;
  PrView v0 = view(n.r.get(), p);
  u64 ev = pick("ev", 3);
  LArg a;
  a.from = p;
  bool must = true;           // this event sends to p unless it is paused
  bool paused = v0.paused, active = v0.active;
  u64 next = v0.next;
  if (ev == 0) leadEvent(s.x, E_PROP, a);
  else if (ev == 1) {
    leadEvent(s.x, E_HB, a);
    active = true;
    paused = v0.state == SNAP;
    must = v0.match < n.g.last();
  } else {
    // a refusal that makes the leader go back: to what was acknowledged or to the hint
    auto m = mkMsg(4, p, n.term);
    m->set_reject(true);
    m->set_index(v0.next - 1);
    u64 hint = anyPos("hint", n.g);
    if (v0.state == PROBE) se_assume((v0.next > v0.match + 1) & (hint <= v0.next - 1));
    else se_stop();
    m->set_rejecthint(pick("low", 2) ? 0 : hint);
    n->Step(m);
    active = true;
    paused = false;
    next = n->GetTracker().GetProgress(p)->Next();
    // what was sent moves nothing in this state
  }
  bool gone = next < s.first();
  int snaps = countTo(n.r.get(), p, 7), apps = countTo(n.r.get(), p, 3);
  if (!must) {
    se_assert((snaps == 0) & (apps == 0), "who has everything gets nothing");
  } else if (paused) {
    se_assert((snaps == 0) & (apps == 0), "who must wait gets nothing");
    se_reach("paused");
  } else if (gone) {
    se_assert(apps == 0, "what is gone cannot be appended");
    bool can = active & !s.st->unavailable;
    se_assert(snaps == (can ? 1 : 0), "a snapshot goes to an active peer if one is available");
    if (can) { checkSnap(s, *sentTo(n.r.get(), p, 7)); se_reach("snapshot"); }
    else {
      auto v1 = view(n.r.get(), p);
      se_assert((v1.state != SNAP) | (v0.state == SNAP), "nothing is on its way then");
      se_reach(active ? "unavailable" : "inactive");
    }
  } else {
    se_assert(snaps == 0, "no snapshot while the entries are there");
    se_assert(apps >= 1, "they are sent");
    se_reach("append");
  }
  emitNode(n.r.get());
}

// a peer that is being sent a snapshot
ENTRY silence() {
  SL s;
  LeadCfg lc;
  lc.own = 0;
  lc.po.states[0] = lc.po.states[1] = false;
  mkSL(s, lc, false);
  Node& n = s.x.n;
  PrView v0 = view(n.r.get(), 2);
  static const int evs[] = {E_ACK, E_REJ, E_HB, E_PROP, E_BEAT, E_UNREACH, E_READ, E_ACK};
  u64 k = pick("ev", 8);
  LArg a;
  a.from = k == 7 ? 3 : 2;
  leadEvent(s.x, evs[k], a);
  PrView v1 = view(n.r.get(), 2);
  bool through = (k == 0) & (a.index > v0.match) & (a.index >= v0.pending);
  if (through) {
    if (a.index + 1 < s.first()) {
      // meanwhile the log was compacted beyond that snapshot
      checkSnap(s, *sentTo(n.r.get(), 2, 7));
      se_reach("again");
    } else {
      se_assert((v1.state == REPL) & (v1.match == a.index) & (v1.pending == 0), "an acknowledgement of the snapshot's position resumes replication");
      se_assert(countTo(n.r.get(), 2, 7) == 0, "no second snapshot");
      se_reach("resumed");
    }
  } else {
    se_assert((v1.state == SNAP) & (v1.pending == v0.pending) & v1.paused, "the snapshot stays on its way");
    se_assert((countTo(n.r.get(), 2, 7) == 0) & (countTo(n.r.get(), 2, 3) == 0), "and nothing is appended meanwhile");
    se_assert(v1.match == ((k == 0) ? maxu(v0.match, a.index) : v0.match), "what was acknowledged is kept");
    se_reach("quiet");
  }
  emitNode(n.r.get());
}

static bool sameView(const PrView& a, const PrView& b) {
  return (a.match == b.match) & (a.next == b.next) & (a.pending == b.pending) & (a.state == b.state) & (a.active == b.active) & (a.probeSent == b.probeSent) & (a.count == b.count) & (a.paused == b.paused);
}
static void afterReport(SL& s, const PrView& v0, bool fail) {
  Node& n = s.x.n;
  PrView v1 = view(n.r.get(), 2);
  if (v0.state != SNAP) {
    se_assert(sameView(v0, v1) & n->Msgs().empty(), "a report about nothing changes nothing");
    se_reach("other");
    return;
  }
  u64 next = fail ? v0.match + 1 : maxu(v0.match + 1, v0.pending + 1);
  se_assert((v1.state == PROBE) & (v1.match == v0.match) & (v1.next == next) & (v1.pending == 0), "probing resumes after the snapshot, or after what was acknowledged");
  se_assert(v1.probeSent & v1.paused & n->Msgs().empty(), "but not before the peer is heard from");
  se_reach(fail ? "failure" : "success");
  n->Step(mkMsg(9, 2, n.term));
  bool gone = next < s.first();
  if (v0.match < n.g.last()) {
    se_assert((countTo(n.r.get(), 2, 7) == (gone ? 1 : 0)) & (countTo(n.r.get(), 2, 3) == (gone ? 0 : 1)), "then it does");
    auto m = sentTo(n.r.get(), 2, 3);
    if (m) se_assert(m->index() == next - 1, "from there");
    m = sentTo(n.r.get(), 2, 7);
    if (m) checkSnap(s, *m);
  }
}
ENTRY reports() {
  SL s;
  LeadCfg lc;
  lc.own = 0;
  mkSL(s, lc, false);
  Node& n = s.x.n;
  PrView v0 = view(n.r.get(), 2);
  bool fail = pick("fail", 2);
  LArg a;
  leadEvent(s.x, fail ? E_SNAPFAIL : E_SNAPOK, a);
  afterReport(s, v0, fail);
  emitNode(n.r.get());
}
ENTRY interface() {
  SL s;
  LeadCfg lc;
  lc.own = 0;
  mkSL(s, lc, false);
  Node& n = s.x.n;
  PrView v0 = view(n.r.get(), 2);
  RawNode rn(std::move(n.r));
  bool fail = pick("fail", 2);
  rn.ReportSnapshot(2, fail ? kFailure : kFinish);
  PrView v1 = view(rn.GetRaft(), 2);
  if (v0.state != SNAP) se_assert(sameView(v0, v1), "nothing to report on");
  else {
    se_assert((v1.state == PROBE) & (v1.next == (fail ? v0.match + 1 : maxu(v0.match + 1, v0.pending + 1))), "the application's report is taken as it is meant");
    se_reach(fail ? "failure" : "success");
  }
  emitNode(rn.GetRaft());
}

// a node that joins gets the log, or a snapshot once it needs one
ENTRY added() {
  SL s;
  LeadCfg lc;
  lc.own = 0;
  lc.po.states[0] = lc.po.states[2] = false;
  mkSL(s, lc, false);
  Node& n = s.x.n;
  raftpb::ConfChangeV2 cc;
  auto c = cc.add_changes();
  c->set_type(pick("learner", 2) ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeAddNode);
  c->set_node_id(4);
  n->ApplyConfChange(std::move(cc));
  auto pr = n->GetTracker().GetProgress(4);
  se_assert(pr && pr->Match() == 0, "nothing is known about it");
  auto refuse = [&](u64 idx) {
    auto m = mkMsg(4, 4, n.term);
    m->set_reject(true);
    m->set_index(idx);
    m->set_rejecthint(0);
    n->Step(m);
  };
  u64 next = pr->Next();
  if (!countTo(n.r.get(), 4, 3)) n->Step(mkMsg(9, 4, n.term));
  auto m = sentTo(n.r.get(), 4, 3);
  se_assert(m != nullptr && m->index() == next - 1, "it is probed");
  n.r->ClearMsgs();
  refuse(next - 1);
  // it has nothing: position 1 is needed, which is gone (the base is at least 1)
  auto sn = sentTo(n.r.get(), 4, 7);
  se_assert(sn != nullptr, "it gets the snapshot");
  checkSnap(s, *sn);
  se_reach("snapshot");
  emitNode(n.r.get());
}

// a real peer far behind installs the snapshot and catches up
ENTRY recover() {
  SL s;
  LeadCfg lc;
  lc.own = 0;
  lc.po.states[0] = lc.po.states[2] = false;
  mkSL(s, lc, false);
  Node& n = s.x.n;
  Node f;
  f.o.id = 3;
  f.cfg = f.o.cfg;
  auto st = std::make_shared<SnapStore>(hlog());
  f.st = st;
  f.conf = mkConf(f.o, st);
  f.r = Raft::New(f.conf);
  auto pr = n->GetTracker().GetProgress(3);
  pr->BecomeProbe();
  pr->SetMatch(0);
  pr->SetNext(1);
  pr->SetProbeSent(true);
  n->Step(mkMsg(9, 3, n.term));
  se_assert(countTo(n.r.get(), 3, 7) == 1, "it gets the snapshot");
  // the configuration arrives with it
  for (int round = 0; round < 3; round++) {
    auto out = n->Msgs();
    n.r->ClearMsgs();
    for (auto& m : out) if (m->to() == 3) f->Step(std::make_shared<raftpb::Message>(*m));
    auto back = f->Msgs();
    f.r->ClearMsgs();
    for (auto& m : back) if (m->to() == 1) n->Step(std::make_shared<raftpb::Message>(*m));
  }
  PrView v = view(n.r.get(), 3);
  se_assert((v.state == REPL) & (v.match == n.g.last()), "it has everything");
  se_assert(f->GetRaftLog()->LastIndex() == n.g.last() && f->GetRaftLog()->FirstIndex() == s.sidx + 1, "the log after the snapshot");
  bool ok = true;
  for (auto& e : f->GetRaftLog()->AllEntries()) ok &= e->term() == n.g.term(e->index());
  se_assert(ok, "as the leader has it");
  se_reach("caught");
  emitNode(f.r.get());
}
