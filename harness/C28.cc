//@ bound one tick at a node in any role with any elapsed count and any timeout of [10, 19]; role changes by any message with election timeouts of 3 and 10 ticks; one message of any type and term in any role; up to 7 ticks of a leader with heartbeat intervals of 1 to 3; log of at most 1 stored + 1 not yet stored entry after an arbitrary base
//@ entry tick reach=due,early,cannot,pre
//@ entry range reach=follower,candidate,leader,low,high,redrawn
//@ entry contact reach=leader,granted,rejected,other,newer,stale
//@ entry beat reach=beat,silent,stepsdown,check
//@ entry silent reach=follower,candidate,pre
//@ entry quiesced reach=counts
//@ entry whole reach=campaigns
//@ entry won reach=again,leads,beat
#include "common.h"

static int count(Raft* r, int type) { int c = 0; for (auto& m : r->Msgs()) c += (int)m->type() == type; return c; }
static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CJ2();
    case 2: return C2L();
    case 3: return CL();
    default: return CN();
  }
}

ENTRY tick() {
  Node n;
  u64 f = pick("cfg", 5);
  n.o.cfg = family(f);
  n.o.preVote = pick("pv", 2);
  n.o.checkQuorum = symB("cq");
  n.o.baseKind = 1;
  n.o.applyAll = true;
  mkNode(n);
  anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 to = symIn("timeout", 10, 19), el = symLE("elapsed", 40);
  r->SetRandomizedElectionTimeout(to);
  r->SetElectionElapsed(el);
  se_assume(r->Term() < BIG);
  Snapv a = snapv(r);
  r->Tick();
  bool due = el + 1 >= to;
  if (!due || !n.cfg.voter(1)) {
    a.elapsed++;
    se_assert((snapv(r) == a) & r->Msgs().empty(), "until then, and for who cannot campaign, a tick only counts");
    se_reach(due ? "cannot" : "early");
  } else {
    bool pre = n.o.preVote;
    se_assert((r->State() == (pre ? kPreCandidate : kCandidate)) & (r->Term() == a.term + (pre ? 0 : 1)), "it campaigns when the timeout is reached");
    se_assert(r->ElectionElapsed() == 0, "and waits another timeout");
    se_reach(pre ? "pre" : "due");
  }
  emitNode(r);
}

ENTRY range() {
  Node n;
  n.o.cfg = C3();
  n.o.etick = pick("et", 2) ? 10 : 3;
  n.o.htick = 1;
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  Raft* r = n.r.get();
  const int64_t et = n.o.etick;
  auto ok = [&](const char* what) {
    int64_t v = r->RandomizedElectionTimeout();
    se_assert((v >= et) & (v <= 2 * et - 1), what);
    if (v == et) se_reach("low");
    if (v == 2 * et - 1) se_reach("high");
  };
  int role = anyRole(n, 15, 0);
  u64 k = pick("how", 3);
  se_assume(r->Term() < BIG);
  r->SetRandomizedElectionTimeout(1000);
  if (k == 0) {
    auto m = mkMsg(8, 2, r->Term() + 1);
    m->set_commit(n.g.base);
    r->Step(m);
    se_assert(r->State() == kFollower, "follower");
    ok("drawn anew from one to just under two timeouts on becoming a follower");
    se_reach("follower");
  } else if (k == 1) {
    if (role == LEAD) se_stop();
    r->Step(mkMsg(0, 1, 0));
    se_assert(r->State() == kCandidate, "candidate");
    ok("likewise on becoming a candidate");
    if (pick("again", 2)) {
      r->SetRandomizedElectionTimeout(1000);
      r->Step(mkMsg(0, 1, 0));
      ok("and on every further attempt");
      se_reach("redrawn");
    }
    se_reach("candidate");
  } else {
    if (role != CAND) se_stop();
    r->Step(mkMsg(6, 1, r->Term()));
    r->Step(mkMsg(6, 2, r->Term()));
    se_assert(r->State() == kLeader, "leader");
    ok("and on becoming a leader");
    se_reach("leader");
  }
  emitNode(r);
}

ENTRY contact() {
  Node n;
  n.o.cfg = pick("cfg", 2) ? C2L() : C3();
  n.o.preVote = symB("pv");
  n.o.checkQuorum = symB("cq");
  n.o.baseKind = 1;
  mkNode(n);
  anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  int ty = kNetTypes[pick("type", 13)];
  if (ty == 14) se_stop();                   // C18
  u64 el = symIn("elapsed", 1, 40);
  r->SetElectionElapsed(el);
  r->SetRandomizedElectionTimeout(1000);
  u64 t = r->Term();
  u64 mt = ty == 13 || ty == 15 ? 0 : symIn("mterm", 1, BIG);
  auto m = anyMsg(n, ty, mt);
  u64 from = m->from();
  int st0 = (int)r->State();
  u64 lead0 = r->Lead();
  if (ty == 3 || ty == 7 || ty == 8) se_assume((mt != t) | (lead0 == 0) | (lead0 == from));
  bool leased = n.o.checkQuorum & (lead0 != 0) & (el < n.o.etick);
  bool transfer = m->context() == "CampaignTransfer";
  r->Step(m);
  bool restarted = r->ElectionElapsed() == 0;
  bool kept = r->ElectionElapsed() == (int64_t)el;
  if (ty == 3 || ty == 7 || ty == 8) {
    if (mt >= t) { se_assert(restarted & (r->Lead() == from), "contact by the leader restarts the wait"); se_reach("leader"); }
    else { se_assert(kept, "a former leader does not"); se_reach("stale"); }
  } else if (mt > t && ty != 17) {
    bool ignored = (ty == 5) & leased & !transfer;
    bool preGrant = ty == 18 && !m->reject();
    if (preGrant) { se_reach("other"); }
    else if (ignored) { se_assert(kept, "an ignored request does not restart the wait"); se_reach("other"); }
    else { se_assert(restarted, "a newer term starts a new wait"); se_reach("newer"); }
  } else if (ty == 5 && mt == t) {
    bool granted = false;
    for (auto& x : r->Msgs()) granted |= ((int)x->type() == 6) & !x->reject();
    se_assert(granted ? restarted : kept, "granting a vote restarts the wait, refusing it does not");
    se_reach(granted ? "granted" : "rejected");
  } else if ((int)r->State() == st0) {
    se_assert(kept, "other traffic does not");
    se_reach("other");
  }
  emitNode(r);
}

ENTRY beat() {
  Node n;
  u64 f = pick("cfg", 3);
  n.o.cfg = family(f);
  n.o.htick = 1 + pick("ht", 3);
  n.o.etick = 5;
  bool cq = pick("cq", 2);
  n.o.checkQuorum = cq;
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  Raft* r = n.r.get();
  u64 el = symLE("elapsed", 4);
  r->SetElectionElapsed(el);
  for (auto& p : r->GetTracker().GetProgressMap()) p.second->SetRecentActive(false);
  bool heard = pick("heard", 2);
  u64 e = el;
  std::set<u64> others = n.cfg.all();
  others.erase(1);
  for (u64 i = 1; i <= 2 * n.o.htick + 1; i++) {
    r->ClearMsgs();
    if (heard) for (u64 id : others) r->GetTracker().GetProgress(id)->SetRecentActive(true);
    r->Tick();
    e++;
    bool chk = e >= n.o.etick;
    if (chk) e = 0;
    if (chk && cq && !heard) {
      se_assert((r->State() == kFollower) & (count(r, 8) == 0), "who loses its quorum sends no more heartbeats");
      se_reach("stepsdown");
      return;
    }
    se_assert(r->State() == kLeader && r->ElectionElapsed() == (int64_t)e, "it leads on");
    if (chk) se_reach("check");
    if (i % n.o.htick == 0) {
      std::set<u64> to;
      for (auto& m : r->Msgs()) { se_assert(((int)m->type() == 8) & (m->term() == n.term) & (m->from() == 1), "heartbeats"); to.insert(m->to()); }
      se_assert(to == others && r->Msgs().size() == others.size(), "one to every other member, exactly at the interval");
      se_reach("beat");
    } else {
      se_assert(r->Msgs().empty(), "none in between");
      se_reach("silent");
    }
  }
  emitNode(r);
}

ENTRY silent() {
  Node n;
  n.o.cfg = C3();
  n.o.preVote = pick("pv", 2);
  n.o.htick = 1;
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  Raft* r = n.r.get();
  u64 el = symLE("elapsed", 40);
  r->SetElectionElapsed(el);
  for (int i = 0; i < 3; i++) {
    r->Tick();
    se_assert((count(r, 8) == 0) & (count(r, 3) == 0), "only leaders send heartbeats");
    se_assert((count(r, 5) == 0) | (r->State() == kCandidate), "nor anything else but votes");
  }
  // asked to beat or to check its quorum it does not either
  r->ClearMsgs();
  Snapv a = snapv(r);
  r->Step(mkMsg(pick("which", 2) ? 1 : 12, 1, 0));
  se_assert((snapv(r) == a) & r->Msgs().empty(), "a leader's timers mean nothing to others");
  se_reach(role == FOL ? "follower" : role == CAND ? "candidate" : "pre");
  emitNode(r);
}

ENTRY quiesced() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  anyRole(n);
  Raft* r = n.r.get();
  u64 el = symLE("elapsed", 40);
  r->SetElectionElapsed(el);
  Snapv a = snapv(r);
  RawNode rn(std::move(n.r));
  rn.TickQuiesced();
  a.elapsed++;
  se_assert((snapv(r) == a) & r->Msgs().empty(), "a quiesced tick counts and does nothing else");
  se_reach("counts");
}

// from the last contact to the campaign, tick by tick
ENTRY whole() {
  Node n;
  n.o.cfg = C3();
  n.o.etick = 3;
  n.o.htick = 1;
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  toFollower(n);
  Raft* r = n.r.get();
  u64 t = r->Term();
  se_assume((t >= 1) & (t < BIG) & ((r->Lead() == 0) | (r->Lead() == 2)));
  r->SetElectionElapsed(symLE("elapsed", 2));
  auto hb = mkMsg(8, 2, t);
  hb->set_commit(n.g.base);
  r->Step(hb);
  int64_t to = r->RandomizedElectionTimeout();
  int when = 0;
  for (int i = 1; i <= 5; i++) {
    r->Tick();
    bool camp = r->State() == kCandidate;
    if (camp && !when) when = i;
    if (!camp) se_assert((int64_t)i < to, "no later than its timeout");
  }
  se_assert(when == to, "it campaigns exactly when the timeout it drew has passed since the contact");
  se_assert(r->Term() >= t + 1, "in a new term");
  se_reach("campaigns");
}

// whoever wins an election starts counting anew: it leads a full timeout before it may doubt its majority
ENTRY won() {
  Node n;
  n.o.cfg = family(pick("cfg", 3));
  n.o.htick = 1 + pick("ht", 3);
  n.o.etick = 5;
  n.o.checkQuorum = pick("cq", 2);
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0;
  mkNode(n);
  bool again = pick("again", 2);
  Raft* r = n.r.get();
  if (again) {
    // it led before, for some ticks
    anyRole(n, 1 << LEAD, 0);
    u64 k = pick("led", 4);
    for (u64 i = 0; i < k; i++) r->Tick();
    r->Step(mkMsg(8, 2, n.term + 1));
    if (r->State() != kFollower) se_stop();
    r->Step(mkMsg(0, 1, 0));
    if (r->State() != kCandidate) se_stop();
    n.term = r->Term();
    se_reach("again");
  } else anyRole(n, 1 << CAND);
  r->SetElectionElapsed((int64_t)symLE("elapsed", 9));
  std::set<u64> others = n.cfg.all();
  others.erase(1);
  r->GetTracker().RecordVote(1, true);
  for (u64 id : n.cfg.voters()) if (id != 1) r->Step(mkMsg(6, id, n.term));
  se_assert((r->State() == kLeader) & (r->ElectionElapsed() == 0), "elected by all, it counts from zero");
  for (u64 i = 1; i < 5; i++) {
    r->ClearMsgs();
    r->Tick();
    se_assert((r->State() == kLeader) & (r->ElectionElapsed() == (int64_t)i), "it leads");
    bool due = i % n.o.htick == 0;
    se_assert((u64)count(r, 8) == (due ? others.size() : 0), "and sends heartbeats at the interval");
    if (due) se_reach("beat");
  }
  se_reach("leads");
  emitNode(r);
}
