//@ bound one message of any type, term and sender in any role; log of at most 1 stable + 1 unstable entry after an arbitrary base
//@ assume messages only a leader sends do not reach the leader of the same term (election safety, C03)
//@ entry lower reach=appresp,prereject,silent
//@ entry higher reach=follow,nolead,prevote,pregrant,lease
//@ entry same reach=kept,campaigned
#include "common.h"

static MsgPtr build(Node& n, int type, u64 term) {
  u64 from = 2 + pick("from", 3);   // 4 is no member
  auto m = mkMsg(type, from, term);
  m->set_reject(symB("mreject"));
  if (type == 3) {
    m->set_index(symIdx("mindex", n.g));
    m->set_logterm(symLE("mlogterm", BIG));
    se_assume((m->index() == 0) == (m->logterm() == 0));
    if (pick("nent", 2)) {
      auto e = m->add_entries();
      e->set_index(m->index() + 1);
      e->set_term(symIn("ment", 1, BIG));
    }
    m->set_commit(symLE("mcommit", BIG));
  } else if (type == 5 || type == 17 || type == 4) {
    m->set_index(symIdx("mindex", n.g));
    m->set_logterm(symLE("mlogterm", BIG));
    m->set_rejecthint(type == 4 ? symIdx("mhint", n.g) : symLE("mhint", BIG));
    if (type != 4 && symB("transfer")) m->set_context("CampaignTransfer");
  } else if (type == 8) {
    m->set_commit(symLE("mcommit", n.g.last()));
  } else if (type == 7) {
    m->mutable_snapshot()->mutable_metadata()->set_index(symIn("sindex", 1, BIG));
    m->mutable_snapshot()->mutable_metadata()->set_term(symIn("sterm", 1, BIG));
    *m->mutable_snapshot()->mutable_metadata()->mutable_conf_state() = n.cfg.cs();
  } else if (type == 15 || type == 16) {
    m->add_entries()->set_data("c");
    m->set_index(symIdx("mindex", n.g));
  }
  return m;
}
static const int kNet[] = {3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 18};

static void mk(Node& n, int& role) {
  n.o.checkQuorum = symB("cq");
  n.o.preVote = symB("pv");
  n.o.maxStable = 1;
  n.o.maxUnstable = 1;
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.symCommit = false;
  mkNode(n);
  role = anyRole(n);
  n->SetElectionElapsed(symLE("elapsed", 30));
}

ENTRY lower() {
  Node n;
  int role;
  mk(n, role);
  int type = kNet[pick("type", 13)];
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt < n->Term());
  auto m = build(n, type, mt);
  Snapv a = snapv(n.r.get());
  u64 from = m->from();
  n->Step(m);
  Snapv b = snapv(n.r.get());
  se_assert(a == b, "a message of a lower term changes nothing");
  se_assert(sameLog(n.r.get(), n.g), "nor the log");
  bool opt = n.o.checkQuorum | n.o.preVote;
  size_t k = n->Msgs().size();
  if (type == 8 || type == 3) {
    se_assert((k == 1) == opt, "a leader of a lower term is told the term iff check-quorum or pre-vote is on");
  } else if (type == 17) {
    se_assert(k == 1, "a pre-vote of a lower term is rejected");
  } else {
    se_assert(k == 0, "other messages of a lower term are ignored");
    se_reach("silent");
  }
  for (auto& x : n->Msgs()) {
    se_assert((x->to() == from) & (x->term() == n->Term()), "the answer goes to the sender with the local term");
    if (type == 17) {
      se_assert((int)x->type() == 18 && x->reject(), "rejection");
      se_reach("prereject");
    } else {
      se_assert((int)x->type() == 4 && !x->reject() && x->index() == 0, "bare append response");
      se_reach("appresp");
    }
  }
  emitNode(n.r.get());
}

ENTRY higher() {
  Node n;
  int role;
  mk(n, role);
  int type = kNet[pick("type", 13)];
  u64 mt = symIn("mterm", 1, BIG);
  se_assume(mt > n->Term());
  auto m = build(n, type, mt);
  if (type == 3) {
    // a correct leader's append: entries of at most its term
    if (m->entries_size()) se_assume((m->entries(0).term() <= mt) & (m->entries(0).term() >= m->logterm()));
    se_assume(m->logterm() <= mt);
  }
  Snapv a = snapv(n.r.get());
  u64 from = m->from();
  bool rej = m->reject();
  bool transfer = m->context() == "CampaignTransfer";
  bool leased = n.o.checkQuorum & (a.lead != 0) & (a.elapsed < (int64_t)n.o.etick) & !transfer;
  n->Step(m);
  Snapv b = snapv(n.r.get());
  if (type == 17) {
    se_assert((b.term == a.term) & (b.vote == a.vote) & (b.lead == a.lead) & (b.state == a.state), "a pre-vote request changes neither term, vote, leader nor role");
    se_reach("prevote");
  } else if (type == 18 && !rej) {
    se_assert((b.term == a.term) | ((role == PRE) & (b.term == a.term + 1) & (b.vote == 1)), "a granted pre-vote answer never imposes its term");
    if (role != PRE) se_assert(a == b, "and changes nothing outside a pre-vote round");
    se_reach("pregrant");
  } else if (type == 5) {
    if (leased) {
      se_assert(a == b, "a lease-protected node ignores the request");
      se_assert(n->Msgs().empty(), "without an answer");
      se_reach("lease");
    } else {
      se_assert((b.term == mt) & (b.state == (int)kFollower) & (b.lead == 0), "follower of the new term without a leader");
    }
  } else {
    se_assert((b.term == mt) | ((type == 14) & (b.term == mt + 1)), "exactly the message's term");
    if (type == 14) return;   // the campaign that follows is C18's subject
    se_assert(b.state == (int)kFollower, "a higher term makes a follower");
    bool fromLeader = type == 3 || type == 7 || type == 8;
    se_assert(b.lead == (fromLeader ? from : 0), "the sender is followed iff only a leader sends such messages");
    se_assert(b.vote == 0, "no vote yet in the new term");
    se_reach(fromLeader ? "follow" : "nolead");
  }
  if (type == 16) se_assert(n->GetReadStates().size() <= 1, "at most one result");
  emitNode(n.r.get());
}

// messages of the own term (or local ones) change the term only by campaigning
ENTRY same() {
  Node n;
  int role;
  mk(n, role);
  u64 k = pick("type", 17);
  int type = k < 13 ? kNet[k] : k == 13 ? 0 : k == 14 ? 1 : k == 15 ? 12 : 11;
  bool local = k >= 13;
  u64 mt = local ? 0 : n->Term();
  if (!local) se_assume(mt >= 1);
  auto m = build(n, type, mt);
  if (local) m->set_from(1);
  if (type == 15 || type == 13) m->set_term(0);
  if ((type == 3 || type == 7 || type == 8) && role == LEAD) se_stop();
  if (type == 3) {
    if (m->entries_size()) se_assume((m->entries(0).term() <= mt) & (m->entries(0).term() >= m->logterm()));
    se_assume(m->logterm() <= mt);
  }
  if (type == 4 && role == LEAD) se_assume((m->index() <= n.g.last()) & (m->rejecthint() <= n.g.last()));
  Snapv a = snapv(n.r.get());
  bool rej = m->reject();
  n->Step(m);
  Snapv b = snapv(n.r.get());
  bool may = ((type == 0) & (role != LEAD)) | ((type == 14) & (role == FOL)) | ((type == 18) & (role == PRE) & !rej);
  se_assert(implies(b.term != a.term, may & (b.term == a.term + 1) & (b.vote == 1)), "the term changes only by campaigning, by one, with the own vote");
  se_assert(b.term >= a.term, "the term never decreases");
  se_assert(implies((b.term == a.term) & (a.vote != 0), b.vote == a.vote), "no vote is forgotten within a term");
  se_reach(b.term == a.term ? "kept" : "campaigned");
  emitNode(n.r.get());
}
