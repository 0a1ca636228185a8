//@ bound every valid configuration of 4 nodes, simple and joint; a change of any form (old style, or new style with at most 2 operations (thorough: 3) and any transition) on nodes of that configuration or one new node; every pair of node sets; a full enter - leave chain of 3 (thorough: 4) nodes; arbitrary votes of all members
//@ assume a change the library refuses as impossible (fatal log line) ends the run: nothing is applied
//@ entry apply reach=simple,joint,left,refused,learner
//@ entry chain reach=left,auto
//@ entry real reach=both,disjoint
//@ entry committed reach=won,lost
#include "cfg.h"

#ifdef SE_THOROUGH
static const u64 NODES = 4, OPS = 3, CHAIN = 4;
#else
static const u64 NODES = 4, OPS = 2, CHAIN = 3;
#endif
static const u64 MAXID = 6;
struct Sets { bool s[MAXID + 1], t[MAXID + 1]; };
static void anySets(Sets& z) {
  for (u64 x = 1; x <= MAXID; x++) { z.s[x] = symB("s"); z.t[x] = symB("t"); }
}
static std::vector<u64> vec(const std::set<u64>& s) { return std::vector<u64>(s.begin(), s.end()); }
static bool quorumOf(const Abs& a, const bool* s) {
  return majority(vec(a.in), [&](u64 x) { return s[x]; }) & majority(vec(a.out), [&](u64 x) { return s[x]; });
}
static bool disjoint(const Sets& z) {
  bool d = true;
  for (u64 x = 1; x <= MAXID; x++) d &= !(z.s[x] & z.t[x]);
  return d;
}
// no quorum of the one without a member of every quorum of the other
static void overlap(const Abs& a, const Abs& b, const char* what) {
  Sets z;
  anySets(z);
  se_assert(!(quorumOf(a, z.s) & quorumOf(b, z.t) & disjoint(z)), what);
}
static void wellFormed(const Abs& b) {
  se_assert(!b.in.empty(), "there are always voters");
  bool ok = true;
  for (u64 y : b.learn) ok &= !b.in.count(y) && !b.out.count(y);
  for (u64 y : b.next) ok &= b.out.count(y) && !b.in.count(y);
  se_assert(ok, "no learner votes, unless it only becomes one");
}
// the new majority of a joint configuration and the old one both decide
static void decides(const Abs& a, const Abs& b) {
  if (!b.joint() || a.joint()) return;
  Sets z;
  anySets(z);
  se_assert(implies(quorumOf(b, z.s), majority(vec(a.in), [&](u64 x) { return z.s[x]; })), "while joint the old majority still decides");
  se_assert(implies(quorumOf(b, z.s), majority(vec(b.in), [&](u64 x) { return z.s[x]; })), "and so does the new one");
}
static void mkAt(Node& n, const Abs& a) {
  n.o.cfg = a.cfg();
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
}
static raftpb::ConfChangeV2 anyChange(u64 maxOps, u64 nodes, bool& empty) {
  raftpb::ConfChangeV2 cc;
  u64 k = pick("ops", maxOps + 1);
  cc.set_transition((raftpb::ConfChangeTransition)pick("transition", 3));
  for (u64 i = 0; i < k; i++) {
    auto s = cc.add_changes();
    u64 ty = pick("type", 3);
    s->set_type(ty == 0 ? raftpb::ConfChangeAddNode : ty == 1 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode);
    s->set_node_id(1 + pick("id", nodes));
  }
  empty = k == 0 && cc.transition() == raftpb::ConfChangeTransitionAuto;
  return cc;
}
static bool g_possible;
// can the change be applied at all
static bool possible(const Abs& a, const raftpb::ConfChangeV2& cc) {
  bool plain = cc.transition() == raftpb::ConfChangeTransitionAuto;
  if (plain && cc.changes_size() == 0) return a.joint();
  if (a.joint()) return false;
  Abs w = a;
  if (!plain || cc.changes_size() > 1) w.out = w.in;
  for (int i = 0; i < cc.changes_size(); i++) w.apply((int)cc.changes(i).type(), cc.changes(i).node_id());
  return !w.in.empty();
}
ENTRY apply() {
  Abs a = anyCfg(NODES);
  Node n;
  mkAt(n, a);
  g_onFatal = [] { se_assert(!g_possible, "only what cannot be applied is refused"); se_reach("refused"); };
  bool empty = false;
  raftpb::ConfState cs;
  // while joint anything but leaving is refused: few operations show that
  u64 nodes = a.joint() ? 1 : NODES + 1, ops = a.joint() ? 1 : OPS;
  if (pick("old", 2)) {
    raftpb::ConfChange cc;
    cc.set_type((raftpb::ConfChangeType)pick("type", 4));
    cc.set_node_id(1 + pick("id", nodes));
    auto v2 = ConfChangeI(std::move(cc)).AsV2();
    g_possible = possible(a, v2);
    cs = n->ApplyConfChange(std::move(v2));
  } else {
    auto cc = anyChange(ops, nodes, empty);
    g_possible = possible(a, cc);
    cs = n->ApplyConfChange(std::move(cc));
  }
  Abs b = absOf(n->GetTracker().GetConfig());
  se_assert(g_possible, "what cannot be applied is not");
  wellFormed(b);
  overlap(a, b, "every quorum after the change meets every quorum before it");
  decides(a, b);
  // what is reported is what is in force
  se_assert(b.cfg().cs() == cs && n->GetTracker().ConfState() == cs, "the state returned is the configuration in force");
  bool ok = n->GetTracker().GetProgressMap().size() == b.all().size();
  for (u64 x : b.all()) { auto p = n->GetTracker().GetProgress(x); ok &= p != nullptr && p->IsLearner() == (b.learn.count(x) != 0); }
  se_assert(ok, "every member and nobody else is tracked, in its role");
  if (empty) { se_assert(a.joint() && !b.joint(), "an empty change leaves a joint configuration"); se_reach("left"); }
  else { se_assert(!a.joint(), "nothing else happens while joint"); se_reach(b.joint() ? "joint" : "simple"); }
  if (b.learn.size() > a.learn.size()) se_reach("learner");
  emitNode(n.r.get());
}
// into a joint configuration and out again
ENTRY chain() {
  Abs a = anyCfg(CHAIN);
  if (a.joint()) se_stop();
  Node n;
  mkAt(n, a);
  bool e;
  auto cc = anyChange(2, CHAIN + 1, e);
  if (e || cc.changes_size() == 0) se_stop();
  cc.set_transition(pick("auto", 2) ? raftpb::ConfChangeTransitionJointImplicit : raftpb::ConfChangeTransitionJointExplicit);
  bool al = cc.transition() == raftpb::ConfChangeTransitionJointImplicit;
  n->ApplyConfChange(std::move(cc));
  Abs b = absOf(n->GetTracker().GetConfig());
  se_assert(b.joint() && b.autol == al, "an explicit or implicit transition is joint, and left by itself iff implicit");
  se_assert(b.out == a.in, "with the old voters outgoing");
  overlap(a, b, "entering keeps quorums overlapping");
  decides(a, b);
  n->ApplyConfChange(raftpb::ConfChangeV2());
  Abs c = absOf(n->GetTracker().GetConfig());
  se_assert(!c.joint() && !c.autol && c.in == b.in, "left for the new voters");
  overlap(b, c, "leaving keeps quorums overlapping");
  wellFormed(c);
  se_reach("left");
  if (al) se_reach("auto");
  emitNode(n.r.get());
}
// the verdicts of the code itself, for arbitrary answers
ENTRY real() {
  Abs a = anyCfg(3);
  Node n;
  mkAt(n, a);
  bool e;
  auto cc = anyChange(2, 4, e);
  const JointConfig before = n->GetTracker().GetConfig().voters;
  n->ApplyConfChange(std::move(cc));
  const JointConfig after = n->GetTracker().GetConfig().voters;
  // everybody votes in one of the two elections of a term at most
  std::map<u64, bool> s, t;
  for (u64 x = 1; x <= 4; x++) {
    u64 v = sym("vote");
    s[x] = v == 1;
    t[x] = v == 2;
  }
  bool w1 = before.VoteResult(s) == kVoteWon, w2 = after.VoteResult(t) == kVoteWon;
  se_assert(!(w1 & w2), "no two elections are won, one in the old and one in the new configuration, without a common voter");
  se_reach("disjoint");
  if (w1 | w2) se_reach("both");
}
// a position committed in one of the two configurations is held by somebody in every election won in the other
ENTRY committed() {
  Abs a = anyCfg(3);
  Node n;
  mkAt(n, a);
  bool e;
  auto cc = anyChange(2, 4, e);
  const JointConfig before = n->GetTracker().GetConfig().voters;
  n->ApplyConfChange(std::move(cc));
  const JointConfig after = n->GetTracker().GetConfig().voters;
  struct M : AckedIndexer {
    u64 m[5];
    std::tuple<Index, bool> AckedIndex(u64 id) const override { return std::make_tuple((Index)m[id], true); }
  } m;
  u64 p = symIn("pos", 1, BIG);
  std::map<u64, bool> votes;
  for (u64 x = 1; x <= 4; x++) {
    bool has = symB("has");
    m.m[x] = symLE("match", BIG);
    se_assume((m.m[x] >= p) == has);
    votes[x] = !has;   // nobody who has it helps a candidate without it
  }
  bool order = pick("order", 2);
  const JointConfig &c = order ? before : after, &v = order ? after : before;
  bool won = v.VoteResult(votes) == kVoteWon;
  se_assert(!won | (c.CommittedIndex(m) < p), "no candidate without a committed entry wins, whichever configuration is the newer one");
  se_reach(won ? "won" : "lost");
}
