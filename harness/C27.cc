//@ bound one trigger (timeout, request, instruction to campaign) at a node in any role, with and without pre-vote, of 8 configuration families, with up to 3 entries of any kind after an arbitrary base, committed and applied anywhere (with message and hand-out limits of one entry too), or a snapshot still to be installed; configuration changes that take away or give the vote, then a trigger
//@ entry trigger reach=learner,outsider,snapshot,conf,leader,campaigns,conf_uncommitted,demoting
//@ entry limits reach=conf,leader,campaigns,conf_uncommitted
//@ entry changed reach=removed,demoted,promoted,kept
//@ entry exleader reach=removed,demoted
//@ entry waiting reach=installed
#include "ready.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CL();
    case 2: return CN();
    case 3: return CJO();
    case 4: return CJLN();
    case 5: return C1();
    case 6: return Cfg{{1, 4}, {2, 3}, {5}, {}};
    default: return Cfg{{2}, {2, 3}, {1}, {3}};
  }
}
// some reason to campaign
static const char* trigger(Raft* r, u64 k) {
  if (k == 0) {
    r->SetElectionElapsed(r->RandomizedElectionTimeout() - 1 + (int64_t)pick("late", 2));
    r->Tick();
    return "timeout";
  }
  if (k == 1) { r->Step(mkMsg(0, 1, 0)); return "request"; }
  r->Step(mkMsg(14, 2, r->Term() ? r->Term() : 1));
  return "transfer";
}
static bool campaigned(Raft* r, u64 t, bool& pre) {
  pre = r->State() == kPreCandidate;
  if (pre) return r->Term() == t;
  return ((r->State() == kCandidate) | (r->State() == kLeader)) && r->Term() == t + 1;
}

static void triggerOn(Node& n, u64 fams) {
  u64 f = pick("cfg", fams);
  n.o.cfg = family(f);
  n.o.preVote = pick("pv", 2);
  n.o.baseKind = 1;
  if (fams > 1 && (f == 0 || f == 1)) n.o.pend = -1;
  n.o.stable = fams > 1 ? 2 : 3;
  n.o.maxUnstable = fams > 1 ? 1 : 0;
  n.o.confAmong = true;
  n.o.committedStable = pick("committed", 2);
  mkNode(n);
  int role = anyRole(n, 15, 0);
  Raft* r = n.r.get();
  bool conf = false, anyc = false;
  for (size_t i = 0; i < n.g.e.size(); i++) {
    u64 p = n.g.base + 1 + i;
    conf |= (n.g.e[i].type != 0) & (p > n.applied) & (p <= n.commit);
    anyc |= n.g.e[i].type != 0;
  }
  u64 k = pick("trigger", 3);
  u64 t = r->Term();
  se_assume((t >= 1) & (t < BIG));
  if (k == 2 && role != FOL) se_stop();    // C18
  if (role == LEAD && k == 0) se_stop();   // C28
  Snapv a = snapv(r);
  trigger(r, k);
  Snapv b = snapv(r);
  if (role == LEAD) {
    se_assert((a == b) & r->Msgs().empty(), "a leader does not campaign");
    se_reach("leader");
  } else if (!n.cfg.voter(1) || n.pend || conf) {
    se_assert((b.term == a.term) & (b.vote == a.vote) & (b.state == a.state) & (b.lead == a.lead), "who must not campaign keeps role, term and vote");
    se_assert(r->Msgs().empty(), "and asks nobody");
    se_reach(!n.cfg.member(1) ? "outsider" : n.cfg.learner(1) ? "learner" : n.pend ? "snapshot" : "conf");
  } else {
    bool pre = false;
    se_assert(campaigned(r, t, pre), "every other does campaign");
    se_reach("campaigns");
    if (anyc) se_reach("conf_uncommitted");
    if (Cfg::has(n.cfg.ln, 1)) se_reach("demoting");
  }
  emitNode(r);
}

ENTRY trigger() { Node n; triggerOn(n, 8); }
// whatever the limits on messages and hand-outs, all that is committed is looked at
ENTRY limits() {
  Node n;
  n.o.maxMsg = 0;
  n.o.maxCommittedSize = pick("small", 2) ? 0 : ~0ull;
  triggerOn(n, 1);
}

static void change(Raft* r, int t) {
  raftpb::ConfChangeV2 cc;
  auto s = cc.add_changes();
  s->set_type((raftpb::ConfChangeType)t);
  s->set_node_id(1);
  r->ApplyConfChange(std::move(cc));
}
ENTRY changed() {
  Node n;
  u64 f = pick("cfg", 3);
  n.o.cfg = family(f);
  n.o.preVote = pick("pv", 2);
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 c = pick("change", 3);
  static const int ty[] = {raftpb::ConfChangeAddNode, raftpb::ConfChangeRemoveNode, raftpb::ConfChangeAddLearnerNode};
  change(r, ty[c]);
  bool votes = c == 0;
  bool learner = c == 2;
  u64 t = r->Term();
  se_assume((t >= 1) & (t < BIG));
  u64 k = pick("trigger", 3);
  if (k == 2 && role != FOL) se_stop();
  Snapv a = snapv(r);
  trigger(r, k);
  Snapv b = snapv(r);
  if (votes) {
    bool pre;
    se_assert(campaigned(r, t, pre), "a node that votes now campaigns");
    se_reach(n.cfg.voter(1) ? "kept" : "promoted");
  } else {
    se_assert((b.term == a.term) & (b.vote == a.vote) & (b.state == a.state) & r->Msgs().empty(), "a node that no longer votes does not");
    se_reach(learner ? "demoted" : "removed");
  }
  emitNode(r);
}
// a leader that was removed or demoted, once it is no longer the leader
ENTRY exleader() {
  Node n;
  n.o.cfg = C3();
  n.o.preVote = pick("pv", 2);
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  Raft* r = n.r.get();
  bool demote = pick("demote", 2);
  change(r, demote ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeRemoveNode);
  u64 t = r->Term() + 1;
  auto m = mkMsg(8, 2, t);
  m->set_commit(n.g.base);
  r->Step(m);
  se_assert((r->State() == kFollower) & (r->Term() == t), "it follows");
  r->ClearMsgs();
  Snapv a = snapv(r);
  trigger(r, pick("trigger", 3));
  Snapv b = snapv(r);
  se_assert((b.term == a.term) & (b.vote == a.vote) & (b.state == a.state) & r->Msgs().empty(), "it never campaigns again");
  se_reach(demote ? "demoted" : "removed");
  emitNode(r);
}
// a snapshot that waits keeps the node quiet until it is installed
ENTRY waiting() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.pend = 1;
  n.o.preVote = pick("pv", 2);
  mkNode(n);
  toFollower(n);
  wrap(x);
  Raft* r = x.r();
  u64 t = r->Term();
  se_assume((t >= 1) & (t < BIG));
  u64 k = pick("trigger", 3);
  trigger(r, k);
  se_assert((r->State() == kFollower) & (r->Term() == t) & r->Msgs().empty(), "not before the snapshot is installed");
  auto rd = x.rn->GetReady();
  trigger(r, k);
  se_assert((r->State() == kFollower) & (r->Term() == t) & r->Msgs().empty(), "nor while it is being installed");
  n.st->ApplySnapshot(rd->snapshot);
  n.st->Append(rd->entries);
  x.rn->Advance();
  bool more = r->GetRaftLog()->Committed() > r->GetRaftLog()->Applied();
  se_assert(!more, "all of it is applied");
  trigger(r, k);
  bool pre;
  se_assert(campaigned(r, t, pre), "then it does");
  se_reach("installed");
  emitNode(r);
}
