//@ bound two proposals of up to 2 entries of any kind (normal, old and new style changes entering, simple or leaving) at a leader in a simple, joint or learner configuration whose log of up to 4 entries (of any kind) after an arbitrary base is committed and applied anywhere; one Advance in any role; a joint change with automatic leaving from proposal to the end within 6 readies of any page size, with the leader possibly re-elected in between
//@ assume changes that leave no voter are not proposed (applying them is a reported fatal error)
//@ entry propose reach=accepted,pending,injoint,empty,notjoint,normal,second
//@ entry advance reach=leaves,not_leader,not_auto,not_yet
//@ entry inherit reach=leaves,waits
//@ entry flow reach=left,reelected
//@ entry forwarded reach=accepted,refused
#include "ready.h"

static Cfg family(u64 k) { return k == 0 ? C3() : k == 1 ? CJ2() : C2L(); }
enum Kind { NORMAL, V1, V2SIMPLE, V2JOINT, V2LEAVE, V2LEAVECTX, V2EMPTY, KINDS };   // V2EMPTY: no changes, but a transition is named
static raftpb::Entry mkProp(u64 kind, char tag) {
  raftpb::Entry e;
  std::string d;
  if (kind == NORMAL) { e.set_data(std::string(1, tag)); return e; }
  if (kind == V1) {
    raftpb::ConfChange c;
    c.set_type(raftpb::ConfChangeAddNode);
    c.set_node_id(7);
    c.SerializeToString(&d);
    e.set_type(raftpb::EntryConfChange);
  } else {
    raftpb::ConfChangeV2 c;
    u64 k = kind == V2SIMPLE ? 1 : kind == V2JOINT ? 2 : 0;
    for (u64 i = 0; i < k; i++) { auto s = c.add_changes(); s->set_type(raftpb::ConfChangeAddNode); s->set_node_id(7 + i); }
    if (kind == V2LEAVECTX) c.set_context("bye");
    if (kind == V2EMPTY) c.set_transition(raftpb::ConfChangeTransitionJointExplicit);
    c.SerializeToString(&d);
    e.set_type(raftpb::EntryConfChangeV2);
  }
  e.set_data(d);
  return e;
}
static bool leaves(u64 k) { return k == V2LEAVE || k == V2LEAVECTX; }

struct Ghost { u64 pending; bool joint; };
// proposes `ks` and checks what lands in the log
static void proposeAndCheck(Node& n, Ghost& g, const std::vector<u64>& ks, u64 from) {
  auto l = n->GetRaftLog();
  u64 last = l->LastIndex(), applied = l->Applied();
  auto m = mkMsg(2, from, 0);
  std::vector<raftpb::Entry> want;
  for (size_t i = 0; i < ks.size(); i++) {
    auto e = mkProp(ks[i], (char)('x' + i));
    *m->add_entries() = e;
    if (ks[i] != NORMAL) {
      bool pend = g.pending > applied;
      bool bad = g.joint ? !leaves(ks[i]) : leaves(ks[i]) || ks[i] == V2EMPTY;
      if (pend || bad) { e = raftpb::Entry(); if (!pend && ks[i] == V2EMPTY) se_reach("empty"); se_reach(pend ? "pending" : g.joint ? "injoint" : "notjoint"); }
      else { g.pending = last + 1 + i; se_reach("accepted"); }
    } else se_reach("normal");
    e.set_index(last + 1 + i);
    e.set_term(n.term);
    want.push_back(e);
  }
  Status st = n->Step(m);
  se_assert(st.IsOK(), "the proposal is accepted");
  se_assert(l->LastIndex() == last + ks.size(), "as many entries as proposed");
  auto [es, s2] = l->Slice(last + 1, last + 1 + ks.size(), ~0ull);
  se_assert(s2.IsOK() && es.size() == ks.size(), "readable");
  bool ok = true;
  for (size_t i = 0; i < ks.size(); i++) ok &= sameEntry(*es[i], want[i]);
  se_assert(ok, "a change is appended as such iff none may be unapplied and it fits the state, an empty entry otherwise");
  se_assert(n->PendingConfIndex() == g.pending, "the last admitted change is remembered");
}

ENTRY propose() {
  Node n;
  u64 k = pick("cfg", 3);
  n.o.cfg = family(k);
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.entType = (int)pick("etype", 2) * 2;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  auto l = n->GetRaftLog();
  Ghost g{n.g.last() - 1, k == 1};
  se_assert(n->PendingConfIndex() == g.pending, "a new leader waits for everything it found in its log");
  // committed and applied anywhere from here
  auto move = [&](const char* nm) {
    u64 c0 = l->Committed(), a0 = l->Applied(), last = l->LastIndex();
    u64 c = c0 + pick((std::string(nm) + ".commit").c_str(), last - c0 + 1);
    l->SetCommitted(c);
    l->SetApplied(a0 + pick((std::string(nm) + ".applied").c_str(), c - a0 + 1));
  };
  move("m1");
  std::vector<u64> ks{pick("k1", KINDS)};
  if (pick("two", 2)) ks.push_back(pick("k2", KINDS));
  proposeAndCheck(n, g, ks, 1 + pick("from", 2));
  if (pick("again", 2)) {
    if (ks.size() == 2 && ks[0] == NORMAL && ks[1] == NORMAL) se_stop();
    move("m2");
    proposeAndCheck(n, g, {pick("k3", KINDS)}, 1);
    se_reach("second");
  }
  emitNode(n.r.get());
}

// a refused or accepted change that comes from a follower is treated alike
ENTRY forwarded() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.symCommit = false;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  Ghost g{n.g.last() - 1, false};
  auto l = n->GetRaftLog();
  if (pick("first", 2)) proposeAndCheck(n, g, {V1}, 2);
  l->SetCommitted(l->LastIndex());
  if (pick("applied", 2)) l->SetApplied(l->LastIndex());
  bool pend = g.pending > l->Applied();
  proposeAndCheck(n, g, {1 + pick("k", KINDS - 1)}, 2 + pick("from", 2));
  se_reach(pend ? "refused" : "accepted");
  emitNode(n.r.get());
}

// one Advance of any role in a joint configuration
ENTRY advance() {
  RN x;
  Node& n = x.n;
  u64 k = pick("cfg", 3);
  n.o.cfg = k == 0 ? C3() : CJ2();
  n.o.cfg.auto_leave = k == 2;
  n.o.baseKind = 1;
  n.o.stable = 2;
  n.o.unstable = 0;
  n.o.symCommit = false;
  mkNode(n);
  x.role = anyRole(n, 1 << FOL | 1 << CAND | 1 << LEAD, 1);
  wrap(x);
  auto l = x.r()->GetRaftLog();
  // the election's entries are stored
  u64 a0 = n.g.base + pick("applied", 3);
  l->StableTo(l->LastIndex(), l->LastTerm());
  for (auto& e : gEnts(n, n.nstable, n.g.e.size())) n.st->Append({e});
  u64 c = a0 + pick("commit", n.g.last() - a0 + 1);
  l->SetCommitted(c);
  l->SetApplied(a0);
  u64 pend = x.r()->PendingConfIndex();
  u64 last = l->LastIndex();
  auto rd = x.rn->GetReady();
  u64 deliver = rd->committed_entries.size();
  x.rn->Advance();
  bool should = k == 2 && x.role == LEAD && deliver != 0 && a0 <= pend && a0 + deliver >= pend;
  se_assert(l->LastIndex() == last + (should ? 1 : 0), "the leader proposes leaving exactly when the last admitted change has just been applied");
  if (should) {
    auto es = std::get<0>(l->Slice(last + 1, last + 2, ~0ull));
    se_assert(((int)es[0]->type() == 2) & es[0]->data().empty() & (es[0]->term() == n.term), "an empty change");
    se_assert(x.r()->PendingConfIndex() == last + 1, "which is now the pending one");
    se_reach("leaves");
  } else {
    se_assert(x.r()->PendingConfIndex() == pend, "nothing else is admitted");
    se_reach(k != 2 ? "not_auto" : x.role != LEAD ? "not_leader" : "not_yet");
  }
  emitNode(x.r());
}

// a new leader finds itself in a joint configuration marked for leaving
ENTRY inherit() {
  RN x;
  Node& n = x.n;
  n.o.cfg = CJ2();
  n.o.cfg.auto_leave = true;
  n.o.baseKind = 1;
  n.o.stable = 2;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  wrap(x);
  auto l = x.r()->GetRaftLog();
  u64 found = n.g.last() - 1;
  int proposals = 0;
  // acknowledgements of everybody arrive in some order, with readies in between
  for (int i = 0; i < 3; i++) {
    u64 upto = n.g.base + pick("ack", n.g.e.size() + 1);
    auto acks = pick("who", 3);
    for (u64 id = 2; id <= 3; id++) {
      if (acks == id - 1) continue;
      auto m = mkMsg(4, id, n.term);
      m->set_index(upto);
      x.rn->Step(m);
    }
    u64 before = l->LastIndex(), ap0 = l->Applied();
    if (x.rn->HasReady()) {
      auto rd = x.rn->GetReady();
      n.st->Append(rd->entries);
      x.rn->Advance();
    }
    u64 ap = l->Applied();
    bool should = proposals == 0 && ap > ap0 && ap >= found;
    se_assert(l->LastIndex() - before == (should ? 1 : 0), "it proposes leaving once what it found is applied, and only once");
    proposals += should;
  }
  se_reach(proposals ? "leaves" : "waits");
  emitNode(x.r());
}

// the life of a joint change with automatic leaving
ENTRY flow() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.symCommit = false;
  n.o.maxCommittedSize = pick("pages", 2) ? 1 : ~0ull;
  mkNode(n);
  wrap(x);
  Raft* r = x.r();
  auto elect = [&] {
    x.rn->Campaign();
    for (u64 id = 2; id <= 4 && r->State() != kLeader; id++) x.rn->Step(mkMsg(6, id, r->Term()));
    se_assert(r->State() == kLeader, "elected");
  };
  elect();
  bool proposed = false, joint = false, left = false;
  int leavesSeen = 0;
  u64 re = pick("reelect", 7);   // before which ready the leader loses and regains leadership
  u64 enter = 0;
  auto applyOne = [&](const raftpb::Entry& e) {
    if (e.type() != raftpb::EntryConfChangeV2) return;
    raftpb::ConfChangeV2 cc;
    se_assert(cc.ParseFromString(e.data()), "well-formed");
    if (cc.changes_size() == 0) {
      se_assert(joint & !left, "left exactly once");
      left = true;
    } else {
      se_assert(!joint, "entered once");
      joint = true;
      enter = e.index();
    }
    raftpb::ConfState cs = x.rn->ApplyConfChange(ConfChangeI(std::move(cc)));
    se_assert((cs.voters_outgoing_size() > 0) == (joint & !left), "joint in between");
  };
  for (int i = 0; i < 6; i++) {
    if (re == (u64)i && i) {
      auto m = mkMsg(5, 2, r->Term() + 1);
      m->set_index(BIG);
      m->set_logterm(BIG);
      x.rn->Step(m);
      se_assert(r->State() == kFollower, "deposed");
      if (r->GetRaftLog()->Committed() > r->GetRaftLog()->Applied()) {
        // it has to apply what is committed first
        if (x.rn->HasReady()) { auto rd = x.rn->GetReady(); n.st->Append(rd->entries); for (auto& e : rd->committed_entries) applyOne(*e); x.rn->Advance(); }
        if (r->GetRaftLog()->Committed() > r->GetRaftLog()->Applied()) se_stop();
      }
      elect();
      se_reach("reelected");
    }
    if (!proposed && i == 1) {
      raftpb::ConfChangeV2 cc;
      auto s = cc.add_changes(); s->set_type(raftpb::ConfChangeAddNode); s->set_node_id(4);
      s = cc.add_changes(); s->set_type(raftpb::ConfChangeRemoveNode); s->set_node_id(3);
      se_assert(x.rn->ProposeConfChange(ConfChangeI(std::move(cc))).IsOK(), "accepted");
      proposed = true;
    }
    if (i && pick("noise", 2)) x.rn->Propose("n");
    if (x.rn->HasReady()) {
      auto rd = x.rn->GetReady();
      n.st->Append(rd->entries);
      for (auto& e : rd->committed_entries) applyOne(*e);
      x.rn->Advance();
    }
    // everybody acknowledges what is stored
    for (u64 id = 2; id <= 4; id++) {
      if (!r->GetTracker().GetProgress(id)) continue;
      auto m = mkMsg(4, id, r->Term());
      m->set_index(r->GetRaftLog()->LastIndex());
      x.rn->Step(m);
    }
    // how many changes leaving the joint configuration are on their way
    int open = 0;
    for (auto& e : r->GetRaftLog()->AllEntries()) if (e->index() > r->GetRaftLog()->Applied() && e->type() == raftpb::EntryConfChangeV2 && e->data().empty()) open++;
    se_assert(open <= (joint && !left ? 1 : 0), "at most one change leaves");
    leavesSeen += open;
  }
  if (left) se_reach("left");
  if (n.o.maxCommittedSize != 1 && re >= 5) se_assert(left, "with everything acknowledged it is left in time");
  emitNode(r);
}
