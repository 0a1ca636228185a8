//@ bound one event (acknowledgement, rejection, heartbeat answer, proposal of 1-2 entries, beat, unreachable/snapshot report, transfer, read, configuration change, becoming leader) at a leader with one peer in any replication state; log of at most 1 stored entry + the leader's empty entry + 1 after an arbitrary base
//@ assume acknowledged positions lie within the leader's log
//@ entry events reach=app,multi,empty,beat,snap
//@ entry conf reach=app,new
//@ entry elected reach=app
//@ entry others reach=none
//@ entry beat reach=behind,ahead
#include "leader.h"

static Cfg family(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return C2L();
    default: return CJ2();
  }
}
#ifdef SE_THOROUGH
static const int NF = 3, ST = 2;
#else
static const int NF = 2, ST = 1;
#endif

// every message that n emitted is the truth
static void truth(Node& n) {
  Raft* r = n.r.get();
  std::map<u64, u64> lastSent;
  for (auto& m : r->Msgs()) {
    int ty = (int)m->type();
    if (ty != 3 && ty != 8 && ty != 7) continue;
    se_assert((m->from() == 1) & (m->to() != 1) & (r->GetTracker().GetProgress(m->to()) != nullptr), "messages go from the node to tracked peers, never to itself");
    se_assert(m->term() == n.term, "they carry the leader's term");
    if (ty == 8) {
      u64 match = r->GetTracker().GetProgress(m->to())->Match();
      se_assert((m->commit() <= match) & (m->commit() <= r->GetRaftLog()->Committed()), "a heartbeat tells no more than the receiver acknowledged and the leader committed");
      se_reach("beat");
    } else if (ty == 7) {
      se_reach("snap");
    } else {
      bool in = false;
      u64 t = n.g.term(m->index(), &in);
      se_assert(in, "the previous position is in the log");
      se_assert(m->logterm() == t, "it has the stated term");
      bool same = true;
      int k = m->entries_size();
      for (int i = 0; i < k; i++) {
        u64 idx = m->index() + 1 + i;
        bool ok = false;
        for (size_t j = 0; j < n.g.e.size(); j++) ok |= (idx == n.g.base + 1 + j) & sameEnt(m->entries(i), n.g.base + 1 + j, n.g.e[j]);
        same &= ok;
      }
      se_assert(same, "the entries are the ones of the log that follow");
      se_assert(m->commit() == r->GetRaftLog()->Committed(), "it carries the commit index");
      if (lastSent.count(m->to())) se_assert(m->index() == lastSent[m->to()], "messages to a peer follow each other");
      lastSent[m->to()] = m->index() + k;
      auto pr = r->GetTracker().GetProgress(m->to());
      if ((int)pr->State() == REPL) se_assert((k == 0) | (pr->Next() >= m->index() + k + 1), "the next position lies behind what was sent");
      se_reach(k == 0 ? "empty" : k > 1 ? "multi" : "app");
    }
  }
  for (auto& [id, last] : lastSent) {
    auto pr = r->GetTracker().GetProgress(id);
    if ((int)pr->State() == REPL) se_assert(pr->Next() == last + 1, "a replicating peer is sent next what follows the last entry sent");
  }
}

ENTRY events() {
  Lead x;
  LeadCfg c;
  c.cfg = family(pick("cfg", NF));
  c.stable = ST;
  mkLead(x, c);
  LArg a;
  int ev = (int)pick("event", E_CONF);
  a.from = ev == E_BEAT || ev == E_PROP || ev == E_READ ? 0 : 2 + pick("from", 2);
  leadEvent(x, ev, a);
  truth(x.n);
  emitNode(x.n.r.get());
}
ENTRY beat() {
  Lead x;
  LeadCfg c;
  c.cfg = C3();
  c.po.window = false;
  mkLead(x, c);
  LArg a;
  leadEvent(x, E_BEAT, a);
  u64 cnt = 0;
  for (auto& m : x.n->Msgs()) {
    if (m->type() != 8) continue;
    cnt++;
    u64 match = x.pv.at(m->to()).match;
    se_assert(m->commit() == minu(match, x.commit), "the heartbeat carries the smaller of both");
    se_reach(match < x.commit ? "behind" : "ahead");
  }
  se_assert(cnt == 2, "one to each peer");
  emitNode(x.n.r.get());
}
ENTRY conf() {
  Lead x;
  LeadCfg c;
  u64 k = pick("cfg", 3);
  c.cfg = k == 0 ? C3() : k == 1 ? C2L() : CJ2();
  mkLead(x, c);
  Node& n = x.n;
  raftpb::ConfChangeV2 cc;
  if (k != 2) {
    auto s = cc.add_changes();
    s->set_type((raftpb::ConfChangeType)pick("type", 3));
    s->set_node_id(2 + pick("id", 3));
  }
  n->ApplyConfChange(std::move(cc));
  truth(n);
  for (auto& m : n->Msgs()) if (m->to() == 4) se_reach("new");
  emitNode(n.r.get());
}
// a fresh leader
ENTRY elected() {
  Node n;
  n.o.cfg = family(pick("cfg", NF));
  n.o.baseKind = 1;
  n.o.applyAll = true;
  mkNode(n);
  n->Step(mkMsg(0, 1, 0));
  n.term++;
  n.r->ClearMsgs();
  for (u64 id : n.cfg.voters()) if (id != 1 && n->State() != kLeader) n->Step(mkMsg(6, id, n.term));
  se_assert(n->State() == kLeader, "all voted for it");
  n.g.e.push_back(GEnt{n.term, 0, 0, 0});
  truth(n);
  std::set<u64> to;
  for (auto& m : n->Msgs()) if (m->type() == 3) to.insert(m->to());
  std::set<u64> want = n.cfg.all();
  want.erase(1);
  se_assert(to == want, "every other member hears from the new leader");
  emitNode(n.r.get());
}
// whoever is not leader sends none of these
ENTRY others() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.applyAll = true;
  n.o.stable = 1;
  n.o.preVote = symB("pv");
  n.o.checkQuorum = symB("cq");
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 k = pick("type", 16);
  if (k == 13) { n->SetElectionElapsed(symLE("elapsed", 30)); n->Tick(); }
  else if (k == 14) n->Step(mkMsg(1, 1, 0));
  else if (k == 15) { auto m = mkMsg(2, 1, 0); m->add_entries()->set_data("x"); n->Step(m); }
  else {
    auto m = anyMsg(n, kNetTypes[k], symIn("mterm", 1, BIG));
    if (kNetTypes[k] == 15 || kNetTypes[k] == 13) m->set_term(0);
    n->Step(m);
  }
  if (n->State() == kLeader) return;
  for (auto& m : n->Msgs()) se_assert((m->type() != 3) & (m->type() != 8) & (m->type() != 7) & (m->type() != 14), "only a leader replicates");
  se_reach("none");
  emitNode(n.r.get());
}
