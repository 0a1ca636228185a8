//@ bound one further answer after an arbitrary set of recorded answers; 9 configuration families of up to 5 voters (two overlapping halves)
//@ entry poll reach=won,lost,pending,prewon,prelost,ignored,counted
//@ entry single reach=leader
//@ entry round reach=leader,follower
#include "common.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return C2();
    case 2: return C2L();
    case 3: return CJ();
    case 4: return CJ2();
    case 5: return CJO();
    case 6: return C5();
    case 7: return Cfg{{1, 2, 3, 4}, {}, {}, {}};
    default: return Cfg{{1, 2}, {1}, {3}, {}};
  }
}

// Inductive step: a (pre-)candidate with an undecided set of answers gets one more message.
ENTRY poll() {
  Node n;
  n.o.cfg = family(pick("cfg", 9));
  n.o.preVote = symB("pv");
  n.o.stable = 0;
  n.o.maxUnstable = 1;
  n.o.symCommit = false;
  mkNode(n);
  int role = anyRole(n, 1 << CAND | 1 << PRE);
  bool pre = role == PRE;
  // recorded answers: own yes, others none / yes / no
  std::map<u64, int> has;
  std::map<u64, bool> yes;
  for (u64 id : n.cfg.all()) {
    if (id == 1) { has[id] = 1; yes[id] = true; continue; }
    has[id] = (int)pick("has", 2);
    if (has[id]) yes[id] = symB("yes");
  }
  for (auto& p : yes) n->GetTracker().RecordVote(p.first, p.second);
  auto won = [&]() { return quorum(n.cfg, [&](u64 x) { return has.count(x) && has[x] && yes[x]; }); };
  auto possible = [&]() { return quorum(n.cfg, [&](u64 x) { return !(has.count(x) && has[x]) || yes[x]; }); };
  se_assume(!won());
  se_assume(possible());
  u64 t0 = n->Term();
  // the next answer: anybody, either kind, either verdict
  u64 from = 2 + pick("from", 5);
  bool preResp = pick("kind", 2);
  bool rej = symB("reject");
  u64 mt;
  if (preResp && !rej) mt = t0 + 1;           // a granted pre-vote answer carries the asked term
  else mt = t0;
  bool counts = preResp == pre;
  // a pre-vote grant from an earlier campaign has at most the current term
  if (preResp && !rej && !pre) mt = symB("late") ? t0 : t0 + 1;
  auto m = mkMsg(preResp ? 18 : 6, from, mt);
  m->set_reject(rej);
  if (counts && !(has.count(from) && has[from])) {
    has[from] = 1;
    yes[from] = !rej;
  }
  n->Step(m);
  bool w = won(), p = possible();
  int st = n->State();
  // what was counted is what was answered
  if (!w && st == (int)(pre ? kPreCandidate : kCandidate)) {
    u64 g = 0, x = 0;
    for (u64 id : n.cfg.voters()) if (has.count(id) && has[id]) { g += yes[id] ? 1 : 0; x += yes[id] ? 0 : 1; }
    auto [granted, rejected, res] = n->GetTracker().TallyVotes();
    se_assert(((u64)granted == g) & ((u64)rejected == x), "the voters' answers are counted");
    se_assert((int)res == (int)kVotePending, "an open election is pending");
    se_reach("counted");
  }
  if (!counts) {
    se_reach("ignored");
    se_assert(st == (int)(pre ? kPreCandidate : kCandidate), "answers of the other kind are ignored");
    se_assert(n->Msgs().empty(), "and answered by nothing");
    se_assert(n->Term() == t0, "and change no term");
    return;
  }
  if (!pre) {
    se_assert((st == (int)kLeader) == w, "leader iff a quorum of every half granted");
    se_assert(implies(st == (int)kFollower, !p), "gives up only when a quorum is impossible");
    se_assert(implies(!p, st == (int)kFollower), "gives up when a quorum is impossible");
    se_assert(implies(p & !w, st == (int)kCandidate), "waits while undecided");
    se_assert(n->Term() == t0, "the term stays");
    if (st == (int)kLeader) {
      se_reach("won");
      n.g.e.push_back(GEnt{t0, 0, 0, 0});
      se_assert(n->Lead() == 1, "it knows itself as leader");
    } else if (st == (int)kFollower) {
      se_reach("lost");
      se_assert(n->Lead() == 0, "no leader known");
    } else se_reach("pending");
    se_assert(n->Vote() == 1, "the own vote stays");
  } else {
    se_assert((st == (int)kCandidate) == w, "candidate iff a quorum of every half granted the pre-vote");
    se_assert(implies(!p, st == (int)kFollower), "a lost pre-vote ends the campaign");
    se_assert(implies(p & !w, st == (int)kPreCandidate), "waits while undecided");
    se_assert(n->Term() == (w ? t0 + 1 : t0), "the term grows with the candidacy only");
    if (w) se_reach("prewon");
    if (!p) se_reach("prelost");
  }
  se_assert(sameLog(n.r.get(), n.g), "old log, plus one empty entry for a leader");
  emitNode(n.r.get());
}

// a single voter elects itself at once
ENTRY single() {
  Node n;
  u64 k = pick("cfg", 3);
  n.o.cfg = k == 0 ? C1() : k == 1 ? Cfg{{1}, {}, {2}, {}} : Cfg{{1}, {1}, {}, {}};
  n.o.preVote = pick("pv", 2);
  mkNode(n);
  anyRole(n, 1 << FOL);
  u64 t0 = n->Term();
  n->Step(mkMsg(0, 1, 0));
  se_assert(n->State() == kLeader, "a single voter wins at once");
  se_assert(n->Term() == t0 + 1, "in the next term");
  se_assert(n->Vote() == 1, "voting for itself");
  n.g.e.push_back(GEnt{t0 + 1, 0, 0, 0});
  se_assert(sameLog(n.r.get(), n.g), "with one empty entry appended");
  se_reach("leader");
  emitNode(n.r.get());
}

// a whole round from the start: answers of three senders in any order, with repeats and outsiders
ENTRY round() {
  Node n;
  n.o.cfg = family(pick("cfg", 9));
  n.o.baseKind = 0;
  n.o.stable = 0;
  n.o.unstable = 0;
  mkNode(n);
  n->BecomeFollower(n.term, 0);
  n->Step(mkMsg(0, 1, 0));
  if (n->State() != kCandidate) se_stop();
  u64 t0 = n->Term();
  std::map<u64, bool> ans;
  ans[1] = true;
  bool over = false;
#ifdef SE_THOROUGH
  const int N = 4;
#else
  const int N = 3;
#endif
  for (int i = 0; i < N && !over; i++) {
    u64 from = 2 + pick("from", 5);
    bool rej = pick("rej", 2);
    auto m = mkMsg(6, from, t0);
    m->set_reject(rej);
    if (!ans.count(from)) ans[from] = !rej;
    n->Step(m);
    bool w = quorum(n.cfg, [&](u64 x) { return ans.count(x) && ans[x]; });
    bool p = quorum(n.cfg, [&](u64 x) { return !ans.count(x) || ans[x]; });
    se_assert((n->State() == kLeader) == w, "leader iff a quorum of every half granted");
    se_assert((n->State() == kFollower) == !p, "follower iff a quorum is impossible");
    if (w) { se_reach("leader"); over = true; }
    if (!p) { se_reach("follower"); over = true; }
  }
  emitNode(n.r.get());
}
