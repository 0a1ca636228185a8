//@ bound one request or campaign trigger from an arbitrary state; log of at most 1 stable + 1 unstable entry after an arbitrary base (or a pending snapshot)
//@ bound 9 configuration families of up to 5 nodes
//@ entry request reach=granted,rejected,pregranted,prerejected
//@ entry campaign reach=vote,prevote,transfer,secondround
#include "common.h"

// a vote or pre-vote request in any state: granted iff allowed and up to date
ENTRY request() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.pend = -1;
  mkNode(n);
  anyRole(n);
  bool pre = pick("pre", 2);
  auto m = mkMsg(pre ? 17 : 5, symIn("from", 2, 5), symIn("mterm", 1, BIG));
  m->set_index(sym("mindex"));
  m->set_logterm(sym("mlogterm"));
  bool transfer = symB("transfer");
  if (transfer) m->set_context("CampaignTransfer");
  n->SetElectionElapsed(symLE("elapsed", 30));
  u64 from = m->from(), mt = m->term();
  u64 t0 = n->Term(), v0 = n->Vote(), l0 = n->Lead();
  int64_t el = n->ElectionElapsed();
  n->Step(m);
  bool leased = (mt > t0) & n.o.checkQuorum & (l0 != 0) & (el < (int64_t)n.o.etick) & !transfer;
  bool stale = mt < t0;
  bool fresh = mt > t0;
  bool can = pre ? ((v0 == from) | ((v0 == 0) & (l0 == 0)) | fresh) : (fresh | (v0 == from) | ((v0 == 0) & (l0 == 0)));
  u64 lt = n.g.lastTerm(), li = n.g.last();
  bool utd = (m->logterm() > lt) | ((m->logterm() == lt) & (m->index() >= li));
  bool expectGrant = !leased & !stale & can & utd;
  bool expectReply = !leased & (!stale | pre);
  u64 replies = 0;
  for (auto& x : n->Msgs()) {
    se_assert((int)x->type() == (pre ? 18 : 6), "only an answer of the matching kind is sent");
    replies++;
    se_assert(x->to() == from, "the answer goes to the requester");
    if (x->reject()) {
      se_reach(pre ? "prerejected" : "rejected");
      se_assert(!expectGrant, "a permitted request of an up-to-date candidate is granted");
      se_assert(x->term() == n->Term(), "a rejection carries the local term");
    } else {
      se_reach(pre ? "pregranted" : "granted");
      se_assert(implies(utd, true) & utd, "granted only to an up-to-date log");
      se_assert(expectGrant, "granted only when permitted");
      se_assert(x->term() == mt, "a grant carries the requested term");
    }
  }
  se_assert(replies == (u64)expectReply, "exactly one answer, none to ignored requests");
  se_assert(sameLog(n.r.get(), n.g), "the log is unchanged");
  emitNode(n.r.get());
}

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return C2();
    case 2: return C2L();
    case 3: return CJ();
    case 4: return CJ2();
    case 5: return CJO();
    case 6: return C5();
    case 7: return CJLN();
    default: return Cfg{{1, 2}, {}, {3, 4}, {}};
  }
}

// requests of one round: one to every other voter, truthful
static u64 checkRound(Node& n, int type, u64 term, bool transfer) {
  auto vs = n.cfg.voters();
  std::map<u64, int> got;
  u64 k = 0;
  for (auto& x : n->Msgs()) {
    if ((int)x->type() != type) continue;
    k++;
    got[x->to()]++;
    se_assert(x->from() == n.o.id, "own id");
    se_assert(x->term() == term, "the request carries the campaign term");
    se_assert((x->index() == n.g.last()) & (x->logterm() == n.g.lastTerm()), "the request carries the true last index and term");
    se_assert((x->context() == "CampaignTransfer") == transfer, "marked as transfer iff it is one");
  }
  for (u64 v : vs) se_assert(got[v] == (v == n.o.id ? 0 : 1), "every other voter is asked exactly once");
  se_assert(k == vs.size() - (vs.count(n.o.id) ? 1 : 0), "nobody else is asked");
  return k;
}

ENTRY campaign() {
  Node n;
  n.o.cfg = family(pick("cfg", 9));
  n.o.preVote = pick("pv", 2);
  n.o.checkQuorum = symB("cq");
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 t0 = n->Term();
  u64 trig = pick("trigger", 3);
  if (trig == 2 && role != FOL) se_stop();
  bool transfer = trig == 2;
  if (trig == 0) {
    n->Step(mkMsg(0, 1, 0));
  } else if (trig == 1) {
    n->SetElectionElapsed(n->RandomizedElectionTimeout() - 1);
    n->Tick();
  } else {
    n->Step(mkMsg(14, 2, t0));
  }
  bool pre = n.o.preVote && !transfer;
  se_assert((int)n->State() == (pre ? (int)kPreCandidate : (int)kCandidate), "the node campaigns");
  se_reach(pre ? "prevote" : transfer ? "transfer" : "vote");
  se_assert(n->Term() == (pre ? t0 : t0 + 1), "term of the campaign");
  u64 k = checkRound(n, pre ? 17 : 5, t0 + 1, transfer);
  se_assert(n->Msgs().size() == k, "no other message");
  if (pre) {
    n->ClearMsgs();
    // every voter grants, one after the other, until the second round starts
    for (u64 v : n.cfg.voters()) {
      if (v == 1) continue;
      n->Step(mkMsg(18, v, t0 + 1));
      if (n->State() == kCandidate) break;
    }
    se_assert(n->State() == kCandidate, "a granted pre-vote leads to a candidacy");
    se_reach("secondround");
    k = checkRound(n, 5, t0 + 1, false);
    se_assert(n->Msgs().size() == k, "no other message");
  }
  se_assert(sameLog(n.r.get(), n.g), "the log is unchanged");
  emitNode(n.r.get());
}
