//@ bound one message from an arbitrary state; log of at most 1 stable + 1 unstable entry after an arbitrary base
//@ bound other events: one message of any type and term, a tick, a campaign request or a proposal in any role
//@ bound restart: one vote request or campaign of an arbitrary started node, one ready, restart from what was persisted, one more vote request
//@ entry vote_step reach=granted,regrant,rejected,newterm
//@ entry any reach=kept,newvote,forgotten,self
//@ entry restart reach=granted,self,refused,regrant
#include "common.h"

ENTRY vote_step() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  mkNode(n);
  u64 kind = pick("state", 4);
  if (kind == 0) toFollower(n);
  else if (kind == 1) toPreCandidate(n);
  else if (kind == 2) toCandidate(n);
  else toLeader(n);
  n.r->ClearMsgs();
  u64 t0 = n.r->Term(), v0 = n.r->Vote(), l0 = n.r->Lead();
  auto m = mkMsg(5, symIn("from", 2, 5), symIn("mterm", 1, BIG));
  m->set_index(sym("mindex"));
  m->set_logterm(sym("mlogterm"));
  if (symB("transfer")) m->set_context("CampaignTransfer");
  u64 from = m->from(), mt = m->term();
  n.r->SetElectionElapsed(symLE("elapsed", 30));
  n.r->Step(m);
  u64 grants = 0;
  for (auto& x : n.r->Msgs()) {
    if (x->type() != 6) continue;
    if (x->reject()) { se_reach("rejected"); continue; }
    grants++;
    se_reach("granted");
    if (v0 == from) se_reach("regrant");
    if (mt > t0) se_reach("newterm");
    se_assert((x->to() == from) & (x->term() == mt), "the grant goes to the candidate, for its term");
    se_assert((mt > t0) | ((mt == t0) & ((v0 == from) | ((v0 == 0) & (l0 == 0)))), "no second vote in a term");
    se_assert((n.r->Vote() == from) & (n.r->Term() == mt), "the vote is recorded with the term");
  }
  se_assert(grants <= 1, "one reply");
  se_assert(implies((n.r->Term() == t0) & (v0 != 0), n.r->Vote() == v0), "a vote is never changed within its term");
  emitNode(n.r.get());
}

// every other event: a vote, once there, stays for its term, and appears only by campaigning
ENTRY any() {
  Node n;
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  u64 own = n.vote;
  int role = anyRole(n, 15, 0);
  if (role != FOL && role != PRE) own = 1;
  se_assert(n.r->Vote() == own, "taking a role changes the vote only by campaigning");
  n->SetElectionElapsed(symLE("elapsed", 30));
  u64 t0 = n->Term();
  u64 k = pick("event", 17), vt = 0, vfrom = 0;
  bool local = true;
  if (k == 13) n->Tick();
  else if (k == 14) n->Step(mkMsg(0, 1, 0));
  else if (k == 15) n->Step(mkMsg(12, 1, 0));
  else if (k == 16) { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("x"); n->Step(m); }
  else {
    u64 mt = symIn("mterm", 1, BIG);
    AnyOpt ao;
    ao.senders = 2;
    if (kNetTypes[k] == 3 || kNetTypes[k] == 7 || kNetTypes[k] == 8) if (role == LEAD) se_assume(mt != t0);
    auto m = anyMsg(n, kNetTypes[k], mt, ao);
    if (kNetTypes[k] == 15 || kNetTypes[k] == 13) m->set_term(0);
    if (kNetTypes[k] == 5) { vt = mt; vfrom = m->from(); }
    local = false;
    n->Step(m);
  }
  u64 t1 = n->Term(), v1 = n->Vote();
  se_assert(implies((t1 == t0) & (own != 0), v1 == own), "a vote is never changed within its term");
  se_assert((v1 == 0) | ((t1 == t0) & (v1 == own)) | ((v1 == 1) & (t1 > t0)) | ((vfrom != 0) & (v1 == vfrom) & (t1 == vt)), "a vote appears only by granting a request, or for itself in a new term");
  if (v1 == own && t1 == t0) se_reach("kept");
  else if (v1 == 0) se_reach("forgotten");
  else if (v1 == 1) se_reach("self");
  else se_reach("newvote");
  emitNode(n.r.get());
}

// the vote is part of what a ready asks to persist, with the message that carries it,
// and a node restarted from that refuses everybody else in that term
ENTRY restart() {
  Node n;
  n.o.checkQuorum = false;
  n.o.preVote = symB("pv");
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  auto st = n.st;
  auto conf = n.conf;
  RawNode rn(std::move(n.r));
  u64 t0 = rn.GetRaft()->Term(), v0 = rn.GetRaft()->Vote();
  bool camp = pick("camp", 2);
  u64 from = 2, mt = 0;
  if (camp) {
    rn.Campaign();
    if (n.o.preVote) {
      auto m = mkMsg(18, 2, t0 + 1);
      rn.Step(m);
    }
  } else {
    mt = symIn("mterm", 1, BIG);
    se_assume(mt >= t0);
    auto m = mkMsg(5, from, mt);
    m->set_index(symIdx("mindex", n.g));
    m->set_logterm(symLE("mlogterm", BIG));
    rn.Step(m);
  }
  u64 t1 = rn.GetRaft()->Term(), v1 = rn.GetRaft()->Vote();
  bool changed = (t1 != t0) | (v1 != v0);
  u64 grants = 0, asks = 0;
  for (auto& x : rn.GetRaft()->Msgs()) {
    if (x->type() == 6 && !x->reject()) grants++;
    if (x->type() == 5) asks++;
  }
  if (rn.HasReady()) {
    auto rd = rn.GetReady();
    u64 g2 = 0, a2 = 0;
    for (auto& x : rd->messages) {
      if (x->type() == 6 && !x->reject()) g2++;
      if (x->type() == 5) a2++;
    }
    se_assert((g2 == grants) & (a2 == asks), "the messages are in the ready");
    if (changed) se_assert((rd->hard_state.term() == t1) & (rd->hard_state.vote() == v1) & rd->must_sync, "the ready carries term and vote, to be written synchronously");
    if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
    st->Append(rd->entries);
    rn.Advance();
  } else {
    se_assert(!changed, "a changed term or vote announces a ready");
  }
  auto r2 = Raft::New(conf);
  if (grants || asks) se_assert((r2->Term() == t1) & (r2->Vote() == v1), "a restarted node knows its vote");
  if (asks) se_assert(v1 == 1, "it voted for itself");
  if (grants) se_assert(v1 == from, "it voted for the requester");
  if (!(grants || asks)) { se_emit(t1); return; }
  se_reach(asks ? "self" : "granted");
  // another (or the same) candidate of that term asks
  u64 c2 = 2 + pick("second", 2);
  auto m = mkMsg(5, c2, t1);
  m->set_index(symIdx("m2index", n.g));
  m->set_logterm(symLE("m2logterm", BIG));
  r2->Step(m);
  se_assert(r2->Vote() == v1, "the vote stays");
  for (auto& x : r2->Msgs()) if (x->type() == 6) {
    se_assert(x->reject() | (v1 == c2), "nobody else gets it");
    se_reach(x->reject() ? "refused" : "regrant");
  }
  emitNode(r2.get());
}
