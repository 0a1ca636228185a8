//@ bound sequences of 5 (quick: 4) steps at a leader - read requests of the node or a peer, heartbeat answers of any peer with any pending, unknown or no context, commits, beats - in simple, learner, joint configurations; log after an arbitrary base
//@ bound single requests: every role, safe and lease mode, committed in the own term or not, changing leadership
//@ assume request contexts are unique
//@ entry safe reach=answered,batch,waiting,remote
//@ entry again reach=once,both
//@ entry wait reach=waits,released
//@ entry single reach=single,removed
//@ entry lease reach=answered,waits
//@ entry follower reach=forwarded,dropped,delivered
//@ entry lost reach=stepdown
#include "common.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CJ2();
    case 2: return C2L();
    case 3: return Cfg{{1, 2, 3, 4}, {}, {}, {}};
    default: return Cfg{{2, 3}, {1, 2, 4}, {}, {}};
  }
}
static void mkL(Node& n, Cfg c, bool settled, bool lease = false) {
  n.o.cfg = c;
  n.o.lease = lease;
  n.o.checkQuorum = lease;
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.symCommit = false;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  if (settled) {
    for (u64 id : c.all()) if (id != 1) { auto m = mkMsg(4, id, n.term); m->set_index(n.g.last()); n->Step(m); }
    n.r->ClearMsgs();
    se_assert(n->GetRaftLog()->Committed() == n.g.last(), "everything is committed");
  }
}
struct Req { std::string ctx; u64 from, index; std::set<u64> acks; };
// the answers in what the node emitted since, in order
struct Ans { u64 to, index; std::string ctx; };
static std::vector<Ans> answers(Node& n, size_t& reads) {
  std::vector<Ans> a;
  auto& rs = n->GetReadStates();
  for (; reads < rs.size(); reads++) a.push_back(Ans{0, rs[reads].index, rs[reads].request_ctx});
  for (auto& m : n->Msgs()) if (m->type() == 16) {
    se_assert(m->entries_size() == 1, "an answer names its request");
    a.push_back(Ans{m->to(), m->index(), m->entries(0).data()});
  }
  return a;
}
static bool has(const std::vector<Ans>& a, const Req& r) {
  int k = 0;
  for (auto& x : a) if (x.ctx == r.ctx) { k++; se_assert((x.to == r.from) & (x.index == r.index), "the answer goes to the requester with the commit index of the time of the request"); }
  return k == 1;
}
static void checkBeats(Node& n, const std::string& ctx) {
  std::set<u64> to, want = n.cfg.all();
  want.erase(1);
  for (auto& m : n->Msgs()) if (m->type() == 8) { se_assert(m->context() == ctx, "heartbeats carry the request's context"); se_assert(to.insert(m->to()).second, "once each"); }
  se_assert(to == want, "to every other member");
}

ENTRY safe() {
  Node n;
#ifdef SE_THOROUGH
  const int NF = 5, STEPS = 5;
#else
  const int NF = 4, STEPS = 4;
#endif
  Cfg c = family(pick("cfg", NF));
  mkL(n, c, true);
  std::vector<Req> q;
  int nreq = 0;
  size_t reads = 0;
  for (int i = 0; i < STEPS; i++) {
    u64 commit = n->GetRaftLog()->Committed();
    n.r->ClearMsgs();
    u64 op = i == 0 ? 0 : pick("op", 4);
    std::vector<Req> done;
    if (op == 0) {            // a read request
      if (nreq >= 3) se_stop();
      Req r{std::string(1, (char)('a' + nreq++)), pick("remote", 2) ? 3ull : 0ull, commit, {1}};
      auto m = mkMsg(15, r.from, 0);
      m->add_entries()->set_data(r.ctx);
      n->Step(m);
      q.push_back(r);
      checkBeats(n, r.ctx);
      se_reach(r.from ? "remote" : "waiting");
    } else if (op == 1) {     // a heartbeat answer
      u64 from = 2 + pick("from", 3);
      u64 k = pick("ctx", 3 + 2);
      auto m = mkMsg(9, from, n.term);
      if (k < 3) m->set_context(std::string(1, (char)('a' + k)));
      else if (k == 3) m->set_context("z");
      n->Step(m);
      if (c.member(from) && k < 3) {
        for (size_t j = 0; j < q.size(); j++) if (q[j].ctx == m->context()) {
          q[j].acks.insert(from);
          if (quorum(c, [&](u64 y) { return q[j].acks.count(y) != 0; })) {
            done.assign(q.begin(), q.begin() + j + 1);
            q.erase(q.begin(), q.begin() + j + 1);
          }
          break;
        }
      }
    } else if (op == 2) {     // another entry gets committed
      n.r->Step([] { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("x"); return m; }());
      for (u64 id : c.all()) if (id != 1) { auto m = mkMsg(4, id, n.term); m->set_index(n->GetRaftLog()->LastIndex()); n->Step(m); }
      se_assert(n->GetRaftLog()->Committed() == commit + 1, "committed");
    } else {                  // the periodic heartbeat repeats the last pending context
      n->Step(mkMsg(1, 1, 0));
      checkBeats(n, q.empty() ? "" : q.back().ctx);
    }
    auto a = answers(n, reads);
    se_assert(a.size() == done.size(), "requests are answered exactly when a quorum confirmed one of them or a later one");
    for (auto& r : done) se_assert(has(a, r), "each once");
    // requests of one requester are answered in order
    for (size_t x = 0; x + 1 < a.size(); x++) if (a[x].to == a[x + 1].to) se_assert(a[x].ctx < a[x + 1].ctx, "in order");
    if (!done.empty()) se_reach("answered");
    if (done.size() > 1) se_reach("batch");
  }
  for (u64 x : c.voters()) se_emit(x);
  se_emit(q.size()); se_emit(reads);
}

// a context asked for again while it is pending is still one request
ENTRY again() {
  g_fatal = FATAL_BAD;
  Node n;
  Cfg c = C3();
  mkL(n, c, true);
  std::vector<Req> q;
  size_t reads = 0;
  u64 commit = n->GetRaftLog()->Committed();
  bool twice = false;
  for (int i = 0; i < 5; i++) {
    n.r->ClearMsgs();
    u64 op = i == 0 ? 0 : pick("op", 2);
    std::vector<Req> done;
    if (op == 0) {
      Req r{std::string(1, (char)('a' + (i == 0 ? 0 : pick("which", 2)))), pick("remote", 2) ? 3ull : 0ull, commit, {1}};
      bool pending = false;
      for (auto& x : q) pending |= x.ctx == r.ctx;
      auto m = mkMsg(15, r.from, 0);
      m->add_entries()->set_data(r.ctx);
      n->Step(m);
      if (!pending) q.push_back(r);
      twice |= pending;
    } else {
      auto m = mkMsg(9, 2, n.term);
      m->set_context(pick("ctx", 2) ? "a" : "b");
      n->Step(m);
      for (size_t j = 0; j < q.size(); j++) if (q[j].ctx == m->context()) {
        done.assign(q.begin(), q.begin() + j + 1);
        q.erase(q.begin(), q.begin() + j + 1);
        break;
      }
    }
    auto a = answers(n, reads);
    se_assert(a.size() == done.size(), "as many answers as there were requests");
    for (auto& r : done) se_assert(has(a, r), "each once");
    if (twice && !done.empty()) se_reach("once");
    if (twice && done.size() > 1) se_reach("both");
  }
  se_emit(q.size()); se_emit(reads);
}

// nothing is answered before the leader committed in its own term
ENTRY wait() {
  Node n;
  Cfg c = family(pick("cfg", 3));
  bool lease = pick("lease", 2);
  mkL(n, c, false, lease);
  size_t reads = 0;
  u64 from = pick("remote", 2) ? 3 : 0;
  auto m = mkMsg(15, from, 0);
  m->add_entries()->set_data("a");
  n->Step(m);
  // heartbeat answers do not help
  auto h = mkMsg(9, 2, n.term);
  h->set_context("a");
  n->Step(h);
  h = mkMsg(9, 3, n.term);
  h->set_context("a");
  n->Step(h);
  se_assert(answers(n, reads).empty(), "requests wait for the first commit of the term");
  for (auto& x : n->Msgs()) se_assert(x->type() != 8, "and no round is started for them");
  se_reach("waits");
  n.r->ClearMsgs();
  for (u64 id : c.voters()) if (id != 1) { auto k = mkMsg(4, id, n.term); k->set_index(n.g.last()); n->Step(k); }
  u64 commit = n->GetRaftLog()->Committed();
  se_assert(commit == n.g.last(), "now it is committed");
  auto a = answers(n, reads);
  if (lease) {
    se_assert(a.size() == 1 && has(a, Req{"a", from, commit, {}}), "with a lease it is answered then");
  } else {
    se_assert(a.empty(), "then a round is started");
    checkBeats(n, "a");
    n.r->ClearMsgs();
    for (u64 id : c.voters()) if (id != 1) { auto k = mkMsg(9, id, n.term); k->set_context("a"); n->Step(k); }
    a = answers(n, reads);
    se_assert(a.size() == 1 && has(a, Req{"a", from, commit, {}}), "and it is answered with a commit index of the own term");
  }
  se_reach("released");
  // once: a later commit does not answer it again, nor start a round
  n.r->ClearMsgs();
  n->Step([] { auto p = mkMsg(2, 1, 0); p->add_entries()->set_data("x"); return p; }());
  for (u64 id : c.voters()) if (id != 1) { auto k = mkMsg(4, id, n.term); k->set_index(n->GetRaftLog()->LastIndex()); n->Step(k); }
  se_assert(n->GetRaftLog()->Committed() == commit + 1, "the next entry is committed");
  for (u64 id : c.voters()) if (id != 1) { auto k = mkMsg(9, id, n.term); k->set_context("a"); n->Step(k); }
  se_assert(answers(n, reads).empty(), "each request is answered once");
  for (auto& x : n->Msgs()) se_assert(x->type() != 8, "no round for an answered request");
  emitNode(n.r.get());
}

ENTRY single() {
  Node n;
  u64 k = pick("cfg", 4);
  Cfg c = k == 0 ? C1() : k == 1 ? Cfg{{1}, {}, {2}, {}} : k == 2 ? C2() : Cfg{{1, 2}, {}, {3}, {}};
  mkL(n, c, k >= 2);
  size_t reads = 0;
  u64 commit = n->GetRaftLog()->Committed();
  u64 from = pick("remote", 2) ? 3 : 0;
  if (k >= 2) {
    // the leader leaves the configuration: another node is the only voter now
    raftpb::ConfChangeV2 cc;
    auto s = cc.add_changes();
    s->set_type(k == 2 || pick("demote", 2) ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode);
    s->set_node_id(1);
    n->ApplyConfChange(std::move(cc));
    n.r->ClearMsgs();
  }
  auto m = mkMsg(15, from, 0);
  m->add_entries()->set_data("a");
  n->Step(m);
  auto a = answers(n, reads);
  if (k < 2) {
    se_assert(a.size() == 1 && has(a, Req{"a", from, commit, {}}), "a single voter answers at once");
    se_reach("single");
  } else {
    se_assert(a.empty(), "a leader that is not the single voter does not answer on its own");
    n.r->ClearMsgs();
    auto h = mkMsg(9, 2, n.term);
    h->set_context("a");
    n->Step(h);
    a = answers(n, reads);
    se_assert(a.size() == 1 && has(a, Req{"a", from, commit, {}}), "but once the voter confirmed it");
    se_reach("removed");
  }
  emitNode(n.r.get());
}

ENTRY lease() {
  Node n;
  Cfg c = family(pick("cfg", 3));
  bool settled = pick("settled", 2);
  mkL(n, c, settled, true);
  size_t reads = 0;
  u64 commit = n->GetRaftLog()->Committed();
  u64 from = pick("remote", 2) ? 3 : pick("self", 2);
  auto m = mkMsg(15, from, 0);
  m->add_entries()->set_data("a");
  n->Step(m);
  auto a = answers(n, reads);
  if (settled) {
    se_assert(a.size() == 1 && has(a, Req{"a", from == 1 ? 0 : from, commit, {}}), "with a lease the leader answers at once");
    se_reach("answered");
  } else {
    se_assert(a.empty(), "but not before it committed in its term");
    se_reach("waits");
  }
  emitNode(n.r.get());
}

ENTRY follower() {
  Node n;
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 lead = n->Lead(), t = n->Term();
  if (pick("what", 2) == 0) {
    u64 from = pick("remote", 2) ? 3 : 0;
    auto m = mkMsg(15, from, 0);
    m->add_entries()->set_data("ctx");
    auto s = n->Step(m);
    size_t k = n->Msgs().size();
    se_assert(n->GetReadStates().empty(), "only a leader answers");
    if (lead == 0) { se_assert(k == 0, "without a leader the request is dropped"); se_reach("dropped"); }
    else {
      se_assert(k == 1, "it is forwarded");
      auto& f = *n->Msgs()[0];
      se_assert(((int)f.type() == 15) & (f.to() == lead) & (f.term() == 0) & (f.from() == (from ? from : 1)), "to the leader, in the name of who asked");
      se_assert(f.entries_size() == 1 && f.entries(0).data() == "ctx", "unchanged");
      se_reach("forwarded");
    }
  } else {
    se_assume(t > 0);
    auto m = mkMsg(16, 2, t);
    u64 idx = symLE("index", BIG);
    m->set_index(idx);
    u64 k = pick("entries", 3);
    for (u64 i = 0; i < k; i++) m->add_entries()->set_data("ctx");
    n->Step(m);
    auto& rs = n->GetReadStates();
    if (role == FOL && k == 1) {
      se_assert(rs.size() == 1 && rs[0].index == idx && rs[0].request_ctx == "ctx", "the leader's answer is delivered unchanged");
      se_reach("delivered");
    } else {
      se_assert(rs.empty(), "others are not");
    }
  }
  emitNode(n.r.get());
}

// what was pending when leadership was lost is never answered by acknowledgements of another term
ENTRY lost() {
  Node n;
  Cfg c = C3();
  mkL(n, c, true);
  size_t reads = 0;
  auto m = mkMsg(15, 0, 0);
  m->add_entries()->set_data("a");
  n->Step(m);
  u64 t = n.term;
  // a late answer of an older term does not count
  if (pick("old", 2)) {
    u64 ot = symIn("oldterm", 1, BIG);
    se_assume(ot < t);
    auto h = mkMsg(9, 2, ot);
    h->set_context("a");
    n->Step(h);
    se_assert(answers(n, reads).empty(), "answers of an older term do not count");
  }
  // a newer leader shows up, then this node is elected again
  auto b = mkMsg(8, 2, t + 1);
  n->Step(b);
  n->Step(mkMsg(0, 1, 0));
  n->Step(mkMsg(6, 2, t + 2));
  se_assert(n->State() == kLeader, "leader again");
  auto k = mkMsg(4, 2, t + 2);
  k->set_index(n->GetRaftLog()->LastIndex());
  n->Step(k);
  n.r->ClearMsgs();
  for (u64 id = 2; id <= 3; id++) {
    auto h = mkMsg(9, id, t + 2);
    h->set_context("a");
    n->Step(h);
  }
  se_assert(answers(n, reads).empty(), "requests of the lost term are not answered");
  n.r->ClearMsgs();
  n->Step(mkMsg(1, 1, 0));
  checkBeats(n, "");
  se_reach("stepdown");
  emitNode(n.r.get());
}
