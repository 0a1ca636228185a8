//@ bound one message, tick, proposal, configuration change or ready cycle in any role; log of at most 2 stable + 2 unstable entries (quick: 1+1) after an arbitrary base; append messages of at most 2 entries
//@ assume messages a correct peer could have sent (entry terms ascend up to the message's term; only the leader of a term sends its appends); what the code itself reports as a fatal precondition violation ends the path
//@ entry message reach=advanced,same,truncated,snapshot
//@ entry local reach=advanced,same,selfcommit
//@ entry ready reach=applied
//@ entry fullmessage thorough reach=advanced,same,truncated
#include "common.h"

// the committed prefix of a survives in b
static void prefixKept(const LogShot& a, Raft* r, u64 snapIdx) {
  auto l = r->GetRaftLog();
  LogShot b = shot(r);
  se_assert(b.commit >= a.commit, "the commit index never decreases");
  se_assert(b.commit <= b.last, "the commit index never exceeds the last index");
  se_assert(b.applied <= b.commit, "nothing beyond the commit index is applied");
  if (b.first != a.first) {
    // replaced by a snapshot
    se_assert((b.first == snapIdx + 1) & (snapIdx > a.commit), "only a snapshot ahead of the commit index replaces the log");
    se_assert(b.commit == snapIdx, "which is committed up to the snapshot");
    se_reach("snapshot");
    return;
  }
  se_assert(b.bterm == a.bterm, "the base keeps its term");
  for (size_t i = 0; i < a.term.size(); i++) {
    u64 idx = a.first + i;
    bool comm = idx <= a.commit;
    bool same = i < b.term.size();
    if (same) same = (b.term[i] == a.term[i]) & (b.type[i] == a.type[i]) & (b.data[i] == a.data[i]);
    se_assert(implies(comm, same), "a committed entry keeps its term and content");
  }
  if (b.term.size() < a.term.size()) se_reach("truncated");
  se_reach(b.commit > a.commit ? "advanced" : "same");
}

static int mk(Node& n, int mask = 15) {
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.committedStable = false;
  u64 k = pick("cfg", 2);
  n.o.cfg = k == 0 ? C3() : CJ2();
  n.o.baseKind = 1;
  n.o.applyAll = true;
  mkNode(n);
  return anyRole(n, mask, 0);
}

static void message(int maxEnts) {
  Node n;
  int role = mk(n);
  AnyOpt ao;
  ao.maxEnts = maxEnts;
  ao.from = 2 + pick("from", 2);
  if (role == LEAD) {
    PrOpt po;
    po.window = false;
    symProgressFor(n, ao.from, po);
  }
  int type = kNetTypes[pick("type", 13)];
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt >= n->Term());
  if (type == 3 || type == 7 || type == 8) if (role == LEAD) se_assume(mt != n->Term());
  auto m = anyMsg(n, type, mt, ao);
  if (type == 15 || type == 13) m->set_term(0);
  LogShot a = shot(n.r.get());
  u64 sidx = type == 7 ? m->snapshot().metadata().index() : 0;
  n->Step(m);
  prefixKept(a, n.r.get(), sidx);
  emitNode(n.r.get());
}
ENTRY message() { message(1); }
ENTRY fullmessage() {
  Node n;
  n.o.maxStable = 2;
  n.o.maxUnstable = 2;
  n.o.committedStable = false;
  mkNode(n);
  anyRole(n, 1 << FOL | 1 << CAND);
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt >= n->Term());
  AnyOpt ao;
  ao.maxEnts = 2;
  auto m = anyMsg(n, 3, mt, ao);
  LogShot a = shot(n.r.get());
  n->Step(m);
  prefixKept(a, n.r.get(), 0);
  emitNode(n.r.get());
}

ENTRY local() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.committedStable = false;
  u64 c = pick("cfg", 5);
  n.o.cfg = c == 0 ? C3() : c == 1 ? CJ2() : c == 2 ? C1() : c == 3 ? C2() : C2L();
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.applyAll = true;
  mkNode(n);
  int role = anyRole(n, 15, 0);
  if (role == LEAD) {
    PrOpt po;
    po.window = false;
    po.states[2] = false;
    symProgressFor(n, 2, po);
  }
  n->SetElectionElapsed(symLE("elapsed", 30));
  LogShot a = shot(n.r.get());
  u64 what = pick("what", 7);
  if (what == 0) n->Tick();
  else if (what == 1) n->Step(mkMsg(0, 1, 0));
  else if (what == 2) { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("x"); m->add_entries()->set_data("y"); n->Step(m); }
  else if (what == 3) n->Step(mkMsg(11, 2, 0));
  else if (what == 4) { auto m = mkMsg(10, 2, 0); n->Step(m); }
  else {
    // a configuration change is applied
    raftpb::ConfChangeV2 cc;
    auto s = cc.add_changes();
    s->set_type((raftpb::ConfChangeType)pick("cct", 4));
    s->set_node_id(1 + pick("ccid", 4));
    if (what == 6) {
      s = cc.add_changes();
      s->set_type((raftpb::ConfChangeType)pick("cct2", 3));
      s->set_node_id(2 + pick("ccid2", 3));
      cc.set_transition(raftpb::ConfChangeTransitionJointExplicit);
    }
    if (c == 1) cc = raftpb::ConfChangeV2();
    n->ApplyConfChange(std::move(cc));
  }
  if (c == 2 && what == 2 && role == LEAD) se_reach("selfcommit");
  prefixKept(a, n.r.get(), 0);
  emitNode(n.r.get());
}

// an application that takes and acknowledges readies
ENTRY ready() {
  Node n;
  n.o.committedStable = false;
  n.o.pend = -1;
  u64 c = pick("cfg", 2);
  n.o.cfg = c == 0 ? C3() : C1();
  mkNode(n);
  anyRole(n);
  LogShot a = shot(n.r.get());
  auto st = n.st;
  RawNode rn(std::move(n.r));
  for (int i = 0; i < 2; i++) {
    auto rd = rn.GetReady();
    for (auto& e : rd->committed_entries) se_assert(e->index() <= rn.GetRaft()->GetRaftLog()->Committed(), "only committed entries are delivered");
    if (rd->snapshot && rd->snapshot->metadata().index()) st->ApplySnapshot(rd->snapshot);
    st->Append(rd->entries);
    rn.Advance();
    se_assert(rn.GetRaft()->GetRaftLog()->Applied() <= rn.GetRaft()->GetRaftLog()->Committed(), "applying is never reported beyond the commit index");
    if (!rd->committed_entries.empty()) se_reach("applied");
  }
  LogShot b = shot(rn.GetRaft());
  se_assert(b.commit >= a.commit, "the commit index never decreases");
  se_assert(b.commit <= b.last, "the commit index never exceeds the last index");
  se_emit(b.commit); se_emit(b.applied); se_emit(b.last);
}
