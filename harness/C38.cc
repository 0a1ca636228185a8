//@ bound two reachable nodes of a cluster of three, the third silent; a leader whose log holds up to 2 (thorough: 3) entries after an arbitrary base, compacted anywhere, and whose view of the follower is any (probing, replicating with messages lost, waiting for a snapshot, at any next position); a follower that shares any prefix of it, has up to 2 (thorough: 2) other entries after it, compacted and committed anywhere, with any smaller or equal term and vote, with and without pre-vote and quorum checks
//@ assume messages between the two arrive in order, each ready is stored and advanced before anything else happens, and the application reports what became of snapshots
//@ bound two reachable nodes of three in any role and term with logs as above of up to 1 entry of their own (thorough: 2), one of the two as up to date as the other: it times out up to 4 times, the other one once
//@ entry catchup reach=behind,conflict,snapshot,same,probe,replicate,waiting
//@ entry elect reach=elected,kept,deposed,served
//@ bound membership changes of 7 kinds among three nodes, proposed at the leader or a follower, with or without compaction and other proposals around, and one message among the first 10 (thorough: 24) lost, repeated or delayed
//@ bound three nodes from their start in any terms through election and three proposals, two messages among the first 11 (thorough: two among the first 26) lost, repeated or delayed, then six heartbeats or timeouts without faults
//@ bound a leader with one healthy follower, joined by a third node in any role and term whose log is empty, shares or diverges by one entry
//@ entry rejoin reach=ahead,behind,kept,cq,plain
//@ entry members reach=add,learner,promote,swap,explicit,shrink,handover
//@ entry lossy reach=two
//@ entry transfer reach=moved,behind
#include "net.h"

#ifdef SE_THOROUGH
static const u64 FAULTAT = 24;
static const bool THOROUGH = true;
#else
static const u64 FAULTAT = 10;
static const bool THOROUGH = false;
#endif
#ifdef SE_THOROUGH
static const u64 SPAN = 26, NFAULT = 2;
#else
static const u64 SPAN = 11, NFAULT = 2;
#endif
static void anyFault(Net& n, u64 span) {
  u64 f = pick("at", span);
  n.faults.push_back({f, (int)pick("what", 3)});
  if (THOROUGH && n.faults.back().kind == Net::LOSE) n.tell = pick("tell", 2);
}

#ifdef SE_THOROUGH
static const u64 N = 3, Q = 2;
#else
static const u64 N = 2, Q = 1;
#endif
ENTRY catchup() {
  g_fatal = FATAL_BAD;
  NetOpt o;
  o.checkQuorum = o.preVote = pick("cq", 2);
  o.maxMsg = pick("single", 2) ? 0 : ~0ull;
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG);
  std::vector<u64> t{ot};
  for (u64 i = 1; i <= N; i++) { t.push_back(symIn("term", 1, BIG)); se_assume(t[i] >= t[i - 1]); }
  u64 T = symIn("T", 1, BIG);
  se_assume(T > t[N]);
  // the leader's store is compacted at cl, the follower's at cf; they agree up to p
  u64 cl = pick("compacted", N + 1);
  u64 p = pick("shared", N + 1), cf = pick("fcompacted", p + 1);
  std::vector<Ent> le, fe;
  for (u64 i = cl + 1; i <= N; i++) le.push_back(Ent{t[i], (char)('a' + i)});
  for (u64 i = cf + 1; i <= p; i++) fe.push_back(Ent{t[i], (char)('a' + i)});
  u64 extra = pick("other", Q + 1), prev = t[p];
  for (u64 i = 1; i <= extra; i++) {
    u64 x = symIn("oterm", 1, BIG);
    se_assume((x >= prev) & (x < T));
    if (p + i <= N) se_assume(x != t[p + i]);
    prev = x;
    fe.push_back(Ent{x, (char)('A' + i)});
  }
  Member a, b;
  // what is compacted was committed
  u64 kl = pick("commit", 2) ? N : cl, kf = pick("fcommit", 2) ? p : cf;
  boot(a, 1, o, org + cl, t[cl], le, T - 1, 0, kl - cl);
  u64 ft = symIn("fterm", 1, BIG), fv = symLE("fvote", 3);
  se_assume((ft <= T) & (ft >= prev));
  if (pick("late", 2)) se_assume(ft == T); else se_assume(ft < T);
  boot(b, 2, o, org + cf, t[cf], fe, ft, fv, kf - cf);
  a.r()->BecomeCandidate();
  a.r()->BecomeLeader();
  a.r()->ClearMsgs();
  u64 last = org + N + 1;
  Net net;
  net.ms = {&a, &b};
  net.flush(a);
  net.q.clear();   // lost
  // the leader's view of it
  auto pr = a.r()->GetTracker().GetProgress(2);
  u64 mk = pick("match", 2);
  u64 match = mk ? org + p : 0;
  u64 st = pick("state", 3);
  // next: right behind, somewhere, at the end
  u64 nk = pick("next", 2);
  u64 next = nk ? last + 1 : mk ? match + 1 : org + cl + 1;
  pr->SetMatch(match);
  if (st == 0) { pr->BecomeProbe(); pr->SetNext(next); pr->SetProbeSent(pick("sent", 2)); se_reach("probe"); }
  else if (st == 1) {
    pr->BecomeReplicate();
    pr->SetNext(next);
    if (nk) for (u64 i = 0; i < o.maxInflight; i++) pr->GetInflights()->Add(last - o.maxInflight + 1 + i);
    se_reach("replicate");
  } else {
    if (nk) se_stop();
    if (match >= org + cl) se_stop();
    pr->BecomeSnapshot(org + cl);
    se_reach("waiting");
  }
  for (int i = 0; i < 3; i++) {
    if (i == 1 && (int)pr->State() == SNAP) a.rn->ReportSnapshot(2, SnapshotStatus::kFailure);
    a.rn->Tick();
    net.settle();
  }
  se_assert((a.r()->State() == kLeader) & (a.r()->Term() == T), "the leader stays");
  se_assert((b.r()->State() == kFollower) & (b.r()->Term() == T) & (b.r()->Lead() == 1), "it is followed");
  se_assert(a.log()->LastIndex() == last && sameLogs(a, b), "the follower's log has become the leader's");
  se_assert((a.log()->Committed() == last) & (b.log()->Committed() == last), "everything is committed on both");
  se_assert((a.applied == last) & (b.applied == last), "and applied");
  auto v = view(a.r(), 2);
  se_assert((v.match == last) & (v.next == last + 1) & (v.state == REPL) & !v.paused & (v.count == 0), "the leader knows, and replicates freely");
  if (net.snaps) se_reach("snapshot");
  if (extra) se_reach("conflict");
  else if (p == N) se_reach("same");
  else se_reach("behind");
  se_emit(net.budget);
  emitNode(a.r());
  emitNode(b.r());
}

// roles nodes may be left in by a partition
static int setRole(Member& m, const char* nm, bool preVote) {
  int k = (int)pick(nm, preVote ? 4 : 3);
  u64 t = m.r()->Term();
  if (k == CAND || k == LEAD) {
    if (!(t > m.log()->LastTerm())) se_stop();
    m.r()->SetTerm(t - 1);
    m.r()->BecomeCandidate();
    if (k == LEAD) m.r()->BecomeLeader();
  } else if (k == PRE) m.r()->BecomePreCandidate();
  else {
    u64 l = pick("lead", 3);
    if (l == m.id) se_stop();
    m.r()->BecomeFollower(t, l);
  }
  m.r()->ClearMsgs();
  return k;
}
#ifdef SE_THOROUGH
static const u64 OWN = 2;
#else
static const u64 OWN = 1;
#endif
struct Pair { NetOpt o; Member a, b; Net net; int ra, rb; };
static void mkPair(Pair& x) {
  NetOpt& o = x.o;
  o.checkQuorum = pick("cq", 2);
  o.preVote = pick("pv", 2);
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG);
  u64 ct = symIn("cterm", 1, BIG);
  se_assume(ct >= ot);
  u64 common = pick("common", 2);
  u64 prev = common ? ct : ot;
  std::vector<Ent> ea, eb;
  if (common) { ea.push_back(Ent{ct, 'c'}); eb.push_back(Ent{ct, 'c'}); }
  std::vector<u64> ta, tb;
  auto own = [&](const char* nm, char tag, std::vector<Ent>& e, std::vector<u64>& t) {
    u64 k = pick(nm, OWN + 1), q = prev;
    for (u64 i = 0; i < k; i++) { u64 y = symIn(nm, 1, BIG); se_assume(y >= q); q = y; e.push_back(Ent{y, (char)(tag + i)}); t.push_back(y); }
    return q;
  };
  u64 la = own("own1", 'A', ea, ta), lb = own("own2", 'X', eb, tb);
  for (size_t i = 0; i < ta.size() && i < tb.size(); i++) se_assume(ta[i] != tb[i]);
  u64 t1 = symIn("term1", 1, BIG), t2 = symIn("term2", 1, BIG);
  se_assume((t1 >= la) & (t2 >= lb));
  u64 c = pick("commit", common + 1);
  boot(x.a, 1, o, org, ot, ea, t1, symLE("vote1", 3), c);
  boot(x.b, 2, o, org, ot, eb, t2, symLE("vote2", 3), c);
  x.ra = setRole(x.a, "role1", o.preVote);
  x.rb = setRole(x.b, "role2", o.preVote);
  // there is one leader of a term
  if (x.ra == LEAD) se_assume((t1 != t2) | (x.rb != LEAD));
  // an entry of a term comes from the one leader of it
  if (x.ra == LEAD) for (u64 y : tb) se_assume(y != t1);
  if (x.rb == LEAD) for (u64 y : ta) se_assume(y != t2);
  // node 1 is as up to date as node 2
  u64 l1 = x.a.log()->LastTerm(), l2 = x.b.log()->LastTerm();
  se_assume((l1 > l2) | ((l1 == l2) & (x.a.log()->LastIndex() >= x.b.log()->LastIndex())));
  x.net.ms = {&x.a, &x.b};
  x.net.flush(x.a);
  x.net.flush(x.b);
  x.net.q.clear();
}
static void timeout(Member& m, const NetOpt& o, bool campaign) {
  if (m.r()->State() == kLeader) {
    if (!campaign) m.r()->SetElectionElapsed(o.etick - 1);
    m.rn->Tick();
  } else if (campaign) {
    m.r()->SetElectionElapsed(2 * o.etick);
    m.rn->Tick();
  } else m.r()->SetElectionElapsed(o.etick);
}
ENTRY elect() {
  g_fatal = FATAL_BAD;
  Pair x;
  mkPair(x);
  Member &a = x.a, &b = x.b;
  u64 t1 = a.r()->Term(), t2 = b.r()->Term();
  auto follows = [](Member& f, Member& l) { return f.r()->State() == kFollower && f.r()->Lead() == l.id && f.r()->Term() == l.r()->Term() && l.r()->State() == kLeader; };
  for (int i = 0; i < 5; i++) {
    // whoever leads says so; whoever hears from no leader times out, first the one, then the other
    for (auto m : {&a, &b}) if (m->r()->State() == kLeader) m->rn->Tick();
    x.net.settle();
    if (follows(a, b) || follows(b, a)) break;
    timeout(i ? b : a, x.o, false);
    timeout(i ? a : b, x.o, true);
    x.net.settle();
  }
  Member *l = a.r()->State() == kLeader ? &a : &b, *f = l == &a ? &b : &a;
  se_assert(l->r()->State() == kLeader, "one of them leads");
  u64 T = l->r()->Term();
  se_assert((f->r()->State() == kFollower) & (f->r()->Term() == T) & (f->r()->Lead() == l->id), "and the other one follows");
  u64 last = l->log()->LastIndex();
  se_assert(sameLogs(a, b) & (l->log()->Committed() == last) & (f->log()->Committed() == last), "with the same log, all of it committed");
  se_reach(x.ra == LEAD && l == &a && T == t1 ? "kept" : "elected");
  if (x.ra == LEAD && T != t1) se_reach("deposed");
  (void)t2;
  // it serves: proposals and reads from both
  u64 n1 = a.data.size(), n2 = b.data.size();
  int who = (int)pick("client", 2);
  Member& c = who ? b : a;
  c.rn->Propose("req");
  c.rn->ReadIndex("rd");
  x.net.settle();
  timeout(*l, x.o, true);   // the next heartbeat
  x.net.settle();
  se_assert(a.data.size() == n1 + 1 && b.data.size() == n2 + 1 && a.data.back() == "req" && b.data.back() == "req", "a proposal made at either is applied at both, once");
  se_assert(c.reads.size() == 1 && c.reads[0] == "rd", "a read asked for at either is answered, once");
  se_reach("served");
  se_emit(x.net.budget);
  emitNode(a.r());
  emitNode(b.r());
}
// leadership moves on request
ENTRY transfer() {
  g_fatal = FATAL_BAD;
  NetOpt o;
  o.checkQuorum = pick("cq", 2);
  o.preVote = pick("pv", 2);
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG), T = symIn("T", 2, BIG), x = symIn("x", 1, BIG);
  se_assume((ot <= x) & (x < T));
  u64 has = pick("has", 2), cut = pick("compacted", 2);
  Member a, b;
  std::vector<Ent> le{Ent{x, 'x'}}, fe;
  if (has) fe = le;
  boot(a, 1, o, cut ? org + 1 : org, cut ? x : ot, cut ? std::vector<Ent>() : le, T - 1, 0, 0);
  u64 ft = symIn("fterm", 1, BIG);
  se_assume((ft <= T) & (ft >= (has ? x : ot)));
  boot(b, 2, o, org, ot, fe, ft, 0, 0);
  a.r()->BecomeCandidate();
  a.r()->BecomeLeader();
  a.r()->ClearMsgs();
  Net net;
  net.ms = {&a, &b};
  net.flush(a);
  net.q.clear();
  u64 when = pick("when", 3);   // before anything arrived, after a heartbeat, when caught up
  for (u64 i = 0; i < when; i++) { a.rn->Tick(); net.settle(); }
  Member& via = pick("via", 2) && b.r()->Lead() == 1 ? b : a;
  b.r()->SetElectionElapsed(pick("lease", 2) ? 0 : o.etick);
  via.rn->TransferLeader(2);
  for (int i = 0; i < 3; i++) {
    net.settle();
    if (a.r()->State() == kLeader) a.rn->Tick(); else b.rn->Tick();
  }
  net.settle();
  se_assert((b.r()->State() == kLeader) & (b.r()->Term() == T + 1), "the other node leads in the next term");
  se_assert((a.r()->State() == kFollower) & (a.r()->Term() == T + 1) & (a.r()->Lead() == 2), "and the old leader follows it");
  se_assert(sameLogs(a, b) & (a.log()->Committed() == a.log()->LastIndex()) & (b.log()->Committed() == b.log()->LastIndex()), "with the same log, all of it committed");
  se_reach(when ? "moved" : "behind");
  se_emit(net.budget);
  emitNode(a.r());
  emitNode(b.r());
}

// a membership change from proposal to the end, with everybody reachable
enum MKind { M_ADD, M_LEARN, M_PROMOTE, M_SWAP, M_EXPLICIT, M_SHRINK, M_HANDOVER, MKINDS };
ENTRY members() {
  g_fatal = FATAL_BAD;
  u64 k = pick("kind", MKINDS);
  static const char* names[] = {"add", "learner", "promote", "swap", "explicit", "shrink", "handover"};
  Cfg c0 = k == M_PROMOTE ? C2L() : k == M_ADD || k == M_LEARN || k == M_SWAP ? C2() : C3();
  if (k == M_SHRINK || k == M_HANDOVER) c0 = C3();
  NetOpt o;
  o.cfg = c0;
  o.checkQuorum = o.preVote = pick("cq", 2);
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG), T = symIn("T", 2, BIG);
  se_assume(T > ot);
  Member m[3];
  Net net;
  net.snapOnConf = true;
  net.compact = pick("compact", 2);
  net.budget = 300;
  bool fresh = !c0.member(3);
  for (u64 id = 1; id <= 3; id++) {
    if (id == 3 && fresh) { NetOpt e = o; e.cfg = Cfg{}; boot(m[2], 3, e, 0, 0, {}, 0, 0, 0); }
    else {
      u64 t = id == 1 ? T - 1 : symIn("oterm", 1, BIG);
      se_assume((t <= T) & (t >= ot));
      boot(m[id - 1], id, o, org, ot, {}, t, 0, 0);
    }
    net.ms.push_back(&m[id - 1]);
  }
  Member& a = m[0];
  a.r()->BecomeCandidate();
  a.r()->BecomeLeader();
  a.r()->ClearMsgs();
  a.rn->Tick();
  net.settle();
  bool faulty = pick("fault", 2);
  if (faulty) { anyFault(net, FAULTAT); if (!THOROUGH && (net.compact || net.tell)) se_stop(); }
  bool v2 = k >= M_SWAP || (!faulty && pick("v2", 2));
  raftpb::ConfChange c1;
  raftpb::ConfChangeV2 c2;
  auto op = [&](raftpb::ConfChangeType ty, u64 id) {
    c1.set_type(ty);
    c1.set_node_id(id);
    auto s = c2.add_changes();
    s->set_type(ty);
    s->set_node_id(id);
  };
  Cfg want;
  u64 leader = 1;
  switch (k) {
    case M_ADD: op(raftpb::ConfChangeAddNode, 3); want = C3(); break;
    case M_LEARN: op(raftpb::ConfChangeAddLearnerNode, 3); want = C2L(); break;
    case M_PROMOTE: op(raftpb::ConfChangeAddNode, 3); want = C3(); break;
    case M_SWAP: op(raftpb::ConfChangeAddNode, 3); op(raftpb::ConfChangeRemoveNode, 2); want = Cfg{{1, 3}, {}, {}, {}}; break;
    case M_EXPLICIT: op(raftpb::ConfChangeAddLearnerNode, 3); c2.set_transition(raftpb::ConfChangeTransitionJointExplicit); want = C2L(); break;
    case M_SHRINK: op(raftpb::ConfChangeRemoveNode, 3); want = C2(); break;
    case M_HANDOVER: op(raftpb::ConfChangeRemoveNode, 1); op(raftpb::ConfChangeAddLearnerNode, 2); want = Cfg{{3}, {}, {2}, {}}; leader = 3; break;
  }
  // a proposal on the way before and one after
  u64 noise = faulty && !THOROUGH ? 2 : pick("noise", 3);
  if (noise == 1) a.rn->Propose("before");
  Member& via = m[faulty && !THOROUGH ? 0 : pick("via", 2)];
  se_assert((v2 ? via.rn->ProposeConfChange(ConfChangeI(std::move(c2))) : via.rn->ProposeConfChange(ConfChangeI(std::move(c1)))).IsOK(), "accepted");
  if (noise == 2) a.rn->Propose("after");
  for (int i = 0; i < 4; i++) { net.settle(); a.rn->Tick(); }
  net.settle();
  if (k == M_EXPLICIT) {
    se_assert(a.r()->GetTracker().GetConfig().voters.Outgoing().IDs().size() == 3, "joint until told to leave");
    raftpb::ConfChangeV2 leave;
    se_assert(a.rn->ProposeConfChange(ConfChangeI(std::move(leave))).IsOK(), "leaving is accepted");
    for (int i = 0; i < 4; i++) { net.settle(); a.rn->Tick(); }
    net.settle();
  }
  if (k == M_HANDOVER) {
    // the leader has removed itself and falls silent: the voter that is left takes over
    net.ms.erase(net.ms.begin());
    m[2].r()->SetElectionElapsed(2 * o.etick);
    m[1].r()->SetElectionElapsed(o.etick);
    m[2].rn->Tick();
    net.settle();
    for (int i = 0; i < 2; i++) { m[2].rn->Tick(); net.settle(); }
  }
  Member& l = m[leader - 1];
  net.faults.clear();
  if (l.r()->State() == kLeader) { l.rn->Tick(); net.settle(); }
  se_assert(l.r()->State() == kLeader, "there is a leader");
  l.rn->Propose("last");
  net.settle();
  l.rn->Tick();
  net.settle();
  u64 last = l.log()->LastIndex();
  for (u64 id : want.all()) {
    Member& x = m[id - 1];
    auto cs = want.cs();
    se_assert(cs == x.r()->GetTracker().ConfState() && cs == x.cs, "every member knows the new configuration");
    se_assert((x.log()->LastIndex() == last) & (x.log()->Committed() == last) & (x.applied == last) & sameLogs(l, x), "and has everything");
    se_assert(!x.data.empty() && x.data.back() == "last", "what is proposed then reaches it");
    if (id != leader) { auto v = view(l.r(), id); se_assert((v.match == last) & (v.state == REPL), "and is replicated to"); }
  }
  se_assert(l.r()->GetTracker().GetProgressMap().size() == want.all().size(), "nobody else is");
  se_reach(names[k]);
  se_emit(net.budget);
  for (auto& x : m) emitNode(x.r());
}

// a third node, left in any state, comes back to a healthy pair
ENTRY rejoin() {
  g_fatal = FATAL_BAD;
  NetOpt o;
  o.checkQuorum = pick("cq", 2);
  o.preVote = pick("pv", 2);
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG), ct = symIn("cterm", 1, BIG), T = symIn("T", 2, BIG);
  se_assume((ct >= ot) & (T > ct));
  Member m[3];
  Net net;
  net.budget = 300;
  std::vector<Ent> e{Ent{ct, 'c'}}, f;
  u64 own = pick("own", 3), ft = symIn("fterm", 1, BIG), lt = ot;
  if (own == 1) { f = e; lt = ct; }
  else if (own == 2) { u64 y = symIn("yterm", 1, BIG); se_assume((y >= ot) & (y != ct) & (y != T)); f.push_back(Ent{y, 'y'}); lt = y; }
  se_assume(ft >= lt);
  boot(m[0], 1, o, org, ot, e, T - 1, 0, 0);
  boot(m[1], 2, o, org, ot, f, ft, symLE("fvote", 3), 0);
  boot(m[2], 3, o, org, ot, e, T - 1, 0, 0);
  for (auto& x : m) net.ms.push_back(&x);
  // the pair is healthy
  net.ms.erase(net.ms.begin() + 1);
  m[0].r()->SetElectionElapsed(2 * o.etick);
  m[2].r()->SetElectionElapsed(o.etick);
  m[0].rn->Tick();
  net.settle();
  if (m[0].r()->State() != kLeader || m[0].r()->Term() != T) se_stop();
  // an entry of the pair is committed there: the third was not part of it
  int role = setRole(m[1], "role", o.preVote);
  if (role == LEAD) se_assume(ft != T);
  if (m[1].r()->Lead() == 1) se_assume(ft == T);
  net.flush(m[1]);
  net.q.clear();
  // its log is what a node without the committed entry can have
  if (role == LEAD) se_assume((ft < T) & (ft != ct) & (ft != ot));   // entries of those terms come from other leaders
  if (own == 2) se_assume(lt < T);
  net.ms.push_back(&m[1]);
  auto lead = [&]() -> Member* { Member* l = nullptr; for (auto& x : m) if (x.r()->State() == kLeader && (!l || l->r()->Term() < x.r()->Term())) l = &x; return l; };
  for (int i = 0; i < 7; i++) {
    for (auto& x : m) if (x.r()->State() == kLeader) x.rn->Tick();
    net.settle();
    Member* l = lead();
    // whoever hears from no leader times out
    std::vector<Member*> alone;
    for (auto& x : m) if (!(l && (x.id == l->id || (x.r()->Lead() == l->id && x.r()->Term() == l->r()->Term())))) alone.push_back(&x);
    if (alone.empty()) break;
    for (auto x : alone) x->r()->SetElectionElapsed(o.etick);
    Member* c = alone[i % alone.size()];
    if (c->r()->State() != kLeader) { c->r()->SetElectionElapsed(2 * o.etick); c->rn->Tick(); }
    net.settle();
  }
  Member* l = lead();
  se_assert(l != nullptr, "somebody leads");
  l->rn->Propose("again");
  for (int i = 0; i < 2; i++) { net.settle(); l->rn->Tick(); }
  net.settle();
  u64 last = l->log()->LastIndex();
  for (auto& x : m) {
    se_assert((x.r()->Term() == l->r()->Term()) & (x.r()->Lead() == l->id), "all of them follow one leader");
    se_assert((x.log()->Committed() == last) & (x.applied == last) & sameLogs(*l, x), "and have everything");
    se_assert(x.data.size() == 2 && x.data[0] == "c" && x.data[1] == "again", "what was committed before, and then what is proposed now");
  }
  se_reach(ft > T ? "ahead" : "behind");
  if (l->id == 1 && l->r()->Term() == T) se_reach("kept");
  se_reach(o.checkQuorum ? "cq" : "plain");
  se_emit(net.budget);
  for (auto& x : m) emitNode(x.r());
}
// three nodes from the start, proposals, and a network that loses, repeats or delays messages
ENTRY lossy() {
  g_fatal = FATAL_BAD;
  NetOpt o;
  o.checkQuorum = o.preVote = pick("cq", 2);
  u64 org = symIn("base", 1, BIG), ot = symIn("bterm", 1, BIG);
  Member m[3];
  Net net;
  net.budget = 400;
  for (u64 id = 1; id <= 3; id++) {
    u64 t = id == 1 ? ot : symIn("oterm", 1, BIG);
    se_assume((t >= ot));
    if (id > 1) { bool ahead = pick("ahead", 2); se_assume((t > ot) == ahead); }
    boot(m[id - 1], id, o, org, ot, {}, t, 0, 0);
    net.ms.push_back(&m[id - 1]);
  }
  for (u64 i = 0; i < NFAULT; i++) { anyFault(net, SPAN); if (i && net.faults[i].at <= net.faults[i - 1].at) se_stop(); }
  auto lead = [&]() -> Member* { Member* l = nullptr; for (auto& x : m) if (x.r()->State() == kLeader && (!l || l->r()->Term() < x.r()->Term())) l = &x; return l; };
  std::vector<std::string> sent;
  u64 sentBefore = 0;
  for (int i = 0; i < 10; i++) {
    if (i == 4) { net.faults.clear(); sentBefore = sent.size(); }   // healed
    Member* l = lead();
    if (l) {
      if (sent.size() < 2 || i == 9) { std::string d(1, (char)('a' + sent.size())); if (l->rn->Propose(d).IsOK()) sent.push_back(d); }
      l->rn->Tick();
    }
    net.settle();
    // whoever hears from no leader times out; one of them first
    std::vector<Member*> alone;
    l = lead();
    for (auto& x : m) if (x.r()->State() != kLeader && !(l && x.r()->Lead() == l->id && x.r()->Term() == l->r()->Term())) alone.push_back(&x);
    if (!alone.empty()) {
      for (auto x : alone) x->r()->SetElectionElapsed(o.etick);
      auto x = alone[i % alone.size()];
      x->r()->SetElectionElapsed(2 * o.etick);
      x->rn->Tick();
    }
    net.settle();
    // whatever happens, one history
    for (auto& x : m)
      for (size_t k = 0; k < x.data.size() && k < m[0].data.size(); k++) se_assert(x.data[k] == m[0].data[k], "everybody applies the same");
  }
  Member* l = lead();
  if (l) { l->rn->Tick(); net.settle(); }
  se_assert(l != nullptr, "somebody leads");
  u64 last = l->log()->LastIndex();
  for (auto& x : m) {
    se_assert((x.r()->Term() == l->r()->Term()) & (x.r()->Lead() == l->id), "everybody knows");
    se_assert((x.log()->LastIndex() == last) & (x.log()->Committed() == last) & (x.applied == last) & sameLogs(*l, x), "and has everything");
    se_assert(x.data.size() == m[0].data.size() && !x.data.empty() && x.data.back() == sent.back(), "up to what was proposed last");
    // nothing applied twice
    for (size_t k = 1; k < x.data.size(); k++) se_assert(x.data[k] > x.data[k - 1], "in order and once");
  }
  (void)sentBefore;
  if (net.done > 1) se_reach("two");
  for (auto& x : m) emitNode(x.r());
}
