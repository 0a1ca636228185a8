// A node behind its interface (RawNode), events that reach it, and what its
// readies should hold.
#pragma once
#include "common.h"

struct RN {
  Node n;
  std::unique_ptr<RawNode> rn;
  std::shared_ptr<MemoryStorage> st;
  int role = FOL;
  SoftState soft;                 // last reported
  raftpb::HardState hard;
  Raft* r() { return rn->GetRaft(); }
};
inline void wrap(RN& x) {
  x.st = x.n.st;
  x.rn = std::make_unique<RawNode>(std::move(x.n.r));
  x.soft = x.r()->GetSoftState();
  x.hard = x.r()->GetHardState();
}
inline bool sameHard(const raftpb::HardState& a, const raftpb::HardState& b) { return (a.term() == b.term()) & (a.vote() == b.vote()) & (a.commit() == b.commit()); }

enum REv { R_NONE, R_APP, R_CONFLICT, R_HB, R_SNAP, R_PROP, R_TICK, R_VOTE, R_READ, R_ACK, R_N };
// one event; returns false when it makes no sense here
inline void rnEvent(RN& x, int ev, const char* pfx) {
  Raft* r = x.r();
  auto l = r->GetRaftLog();
  auto nm = [&](const char* s) { return std::string(pfx) + s; };
  bool lead = r->State() == kLeader;
  // messages of a leader come with the own term if there can be another leader, else a higher one
  u64 t = (lead || r->Term() == 0) ? r->Term() + 1 : r->Term();
  switch (ev) {
    case R_APP: {
      auto m = mkMsg(3, 2, t);
      m->set_index(l->LastIndex());
      m->set_logterm(l->LastTerm());
      auto e = m->add_entries();
      e->set_index(l->LastIndex() + 1);
      e->set_term(t);
      e->set_data("N");
      m->set_commit(pick(nm("appcommit").c_str(), 2) ? l->LastIndex() + 1 : l->Committed());
      x.rn->Step(m);
      break;
    }
    case R_CONFLICT: {
      // a new leader replaces the entries behind the commit index
      auto m = mkMsg(3, 3, r->Term() + 1);
      u64 c = l->Committed();
      m->set_index(c);
      m->set_logterm(termAt(r, c));
      auto e = m->add_entries();
      e->set_index(c + 1);
      e->set_term(r->Term() + 1);
      e->set_data("C");
      m->set_commit(c + pick(nm("conflictcommit").c_str(), 2));
      x.rn->Step(m);
      break;
    }
    case R_HB: {
      auto m = mkMsg(8, 2, t);
      m->set_commit(l->LastIndex());
      x.rn->Step(m);
      break;
    }
    case R_SNAP: {
      auto m = mkMsg(7, 2, t);
      m->mutable_snapshot()->mutable_metadata()->set_index(l->LastIndex() + 1 + pick(nm("snapahead").c_str(), 2));
      m->mutable_snapshot()->mutable_metadata()->set_term(t);
      *m->mutable_snapshot()->mutable_metadata()->mutable_conf_state() = x.n.cfg.cs();
      m->mutable_snapshot()->set_data("S");
      x.rn->Step(m);
      break;
    }
    case R_PROP: x.rn->Propose("P"); break;
    case R_TICK: {
      r->SetElectionElapsed(30);
      x.rn->Tick();
      break;
    }
    case R_VOTE: {
      // of the next term, or of this one
      u64 vt = r->Term() + pick(nm("votenew").c_str(), 2);
      if (vt == 0) se_stop();
      auto m = mkMsg(5, 3, vt);
      // of a newer term perhaps by a node that lacks entries: the term is taken over, no vote given
      bool lacks = vt > r->Term() && pick(nm("votelacks").c_str(), 2);
      m->set_index(lacks ? 0 : l->LastIndex());
      m->set_logterm(lacks ? 0 : l->LastTerm());
      x.rn->Step(m);
      break;
    }
    case R_READ: {
      if (r->State() == kFollower) {
        auto m = mkMsg(16, 2, r->Term());
        m->set_index(l->Committed());
        m->add_entries()->set_data("q");
        x.rn->Step(m);
      } else {
        x.rn->ReadIndex("q");
      }
      break;
    }
    case R_ACK: {
      auto m = mkMsg(4, 2, r->Term());
      m->set_index(l->LastIndex());
      x.rn->Step(m);
      break;
    }
    default: break;
  }
}
inline bool sameEntry(const raftpb::Entry& a, const raftpb::Entry& b) {
  return (a.index() == b.index()) & (a.term() == b.term()) & (a.type() == b.type()) & (a.data() == b.data());
}
