//@ bound one campaign trigger; up to 3 (thorough: 4) answers of any peers, kinds and terms to a pre-candidate; one pre-vote request of any term and position at a node in any role; log of at most 1 stored + 1 not yet stored entry after an arbitrary base
//@ entry start reach=asks,single,off
//@ entry answers reach=candidate,lost,waiting,newer
//@ entry request reach=granted,rejected,older,ignored
#include "common.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CJ2();
    case 2: return C2L();
    case 3: return C1();
    case 4: return Cfg{{1, 2, 3, 4}, {}, {}, {}};
    default: return CJ();
  }
}

ENTRY start() {
  Node n;
  n.o.cfg = family(pick("cfg", 4));
  n.o.preVote = pick("pv", 2);
  n.o.checkQuorum = symB("cq");
  n.o.baseKind = 1;
  n.o.applyAll = true;
  mkNode(n);
  anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 t = n->Term(), v = n->Vote();
  se_assume(t < BIG);
  auto hs = n->GetHardState();
  bool timer = pick("timer", 2);
  if (timer) {
    n->SetRandomizedElectionTimeout(10);
    n->SetElectionElapsed(9);
    n->Tick();
  } else {
    n->Step(mkMsg(0, 1, 0));
  }
  std::map<u64, int> asked;
  bool pre = true, terms = true, pos = true;
  for (auto& m : n->Msgs()) {
    if (m->type() == 3) continue;
    asked[m->to()]++;
    pre &= m->type() == 17;
    terms &= m->term() == t + 1;
    pos &= (m->index() == n.g.last()) & (m->logterm() == n.g.lastTerm()) & m->context().empty();
  }
  if (n.cfg.voters().size() == 1) {
    se_assert((n->State() == kLeader) & (n->Term() == t + 1) & (n->Vote() == 1), "a single voter needs nobody");
    se_reach("single");
  } else {
    std::set<u64> want = n.cfg.voters();
    want.erase(1);
    bool all = asked.size() == want.size();
    for (u64 x : want) all &= asked.count(x) && asked[x] == 1;
    se_assert(all, "every other voter is asked once");
    se_assert(terms & pos, "for the next term, with the own last position");
    if (n.o.preVote) {
      se_assert((n->State() == kPreCandidate) & (n->Term() == t) & (n->Vote() == v) & (n->Lead() == 0), "a pre-vote round changes neither term nor vote");
      auto h2 = n->GetHardState();
      se_assert((h2.term() == hs.term()) & (h2.vote() == hs.vote()) & (h2.commit() == hs.commit()), "nor the persistent state");
      se_assert(pre, "it asks for pre-votes");
      se_reach("asks");
    } else {
      se_assert((n->State() == kCandidate) & (n->Term() == t + 1) & (n->Vote() == 1) & !pre, "without pre-vote it is a candidate of the next term at once");
      se_reach("off");
    }
  }
  emitNode(n.r.get());
}

ENTRY answers() {
  Node n;
#ifdef SE_THOROUGH
  const int STEPS = 4, NF = 6;
#else
  const int STEPS = 3, NF = 3;
#endif
  u64 k = pick("cfg", NF);
  n.o.cfg = family(k == 3 ? 4 : k);
  n.o.preVote = true;
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.symCommit = false;
  mkNode(n);
  n->Step(mkMsg(0, 1, 0));
  se_assert(n->State() == kPreCandidate, "pre-vote round");
  n.r->ClearMsgs();
  const u64 t = n->Term(), v = n->Vote();
  std::map<u64, bool> votes;
  votes[1] = true;
  const Cfg& c = n.cfg;
  for (int i = 0; i < STEPS; i++) {
    u64 from = 2 + pick("from", c.v.size() >= 4 || c.o.size() >= 3 ? 4 : 3);
    u64 kind = pick("kind", 5);
    // grant for t+1, rejection in the own term, rejection of a newer term, a stray real vote, a rejection of an older term
    auto m = mkMsg(kind == 3 ? 6 : 18, from, 0);
    u64 mt = t;
    if (kind == 0) mt = t + 1;
    if (kind == 2) { mt = symIn("newer", 1, BIG); se_assume(mt > t); }
    if (kind == 4) { mt = symIn("older", 1, BIG); se_assume(mt < t); }
    if (mt == 0) se_stop();
    m->set_term(mt);
    m->set_reject(kind == 1 || kind == 2 || kind == 4);
    n->Step(m);
    if (kind == 2) {
      se_assert((n->State() == kFollower) & (n->Term() == mt) & (n->Vote() == 0) & (n->Lead() == 0), "a rejection of a newer term ends the round in that term");
      se_reach("newer");
      return;
    }
    if (kind == 0 || kind == 1) votes.emplace(from, kind == 0);
    bool won = quorum(c, [&](u64 y) { return votes.count(y) && votes[y]; });
    bool lost = !quorum(c, [&](u64 y) { return !votes.count(y) || votes[y]; });
    if (won) {
      se_assert((n->State() == kCandidate) & (n->Term() == t + 1) & (n->Vote() == 1), "a quorum of pre-votes starts the real candidacy");
      std::set<u64> to, want = c.voters();
      want.erase(1);
      for (auto& x : n->Msgs()) { se_assert((x->type() == 5) & (x->term() == t + 1) & x->context().empty(), "with vote requests for the next term"); to.insert(x->to()); }
      se_assert(to == want && n->Msgs().size() == want.size(), "to every other voter");
      se_reach("candidate");
      return;
    }
    if (lost) {
      se_assert((n->State() == kFollower) & (n->Term() == t) & (n->Vote() == v) & (n->Lead() == 0), "a lost round returns to follower of the old term");
      se_assert(n->Msgs().empty(), "quietly");
      se_reach("lost");
      return;
    }
    se_assert((n->State() == kPreCandidate) & (n->Term() == t) & (n->Vote() == v) & n->Msgs().empty(), "until then it waits, unchanged");
  }
  se_reach("waiting");
  emitNode(n.r.get());
}

ENTRY request() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  mkNode(n);
  anyRole(n, 15, 0);
  n->SetElectionElapsed(symLE("elapsed", 30));
  auto m = anyMsg(n, 17, symIn("mterm", 1, BIG));
  m->set_reject(false);
  u64 mt = m->term(), from = m->from(), idx = m->index(), lt = m->logterm();
  bool transfer = m->context() == "CampaignTransfer";
  Snapv a = snapv(n.r.get());
  n->Step(m);
  se_assert(snapv(n.r.get()) == a, "a pre-vote request changes nothing at the receiver");
  bool leased = n.o.checkQuorum & (a.lead != 0) & (a.elapsed < (int64_t)n.o.etick) & !transfer;
  if (mt > a.term && leased) {
    se_assert(n->Msgs().empty(), "a node that hears from its leader stays silent");
    se_reach("ignored");
    return;
  }
  se_assert(n->Msgs().size() == 1, "one answer");
  auto& r = *n->Msgs()[0];
  se_assert(((int)r.type() == 18) & (r.to() == from), "to the requester");
  u64 lastT = n.g.lastTerm(), last = n.g.last();
  bool fresh = (lt > lastT) | ((lt == lastT) & (idx >= last));
  bool may = (mt > a.term) | ((mt == a.term) & ((a.vote == from) | ((a.vote == 0) & (a.lead == 0))));
  se_assert(r.reject() == !(fresh & may), "granted iff the rules allow and the requester is up to date");
  se_assert(r.term() == (r.reject() ? a.term : mt), "a grant answers with the requested term, a rejection with the own");
  se_reach(r.reject() ? (mt < a.term ? "older" : "rejected") : "granted");
  emitNode(n.r.get());
}
