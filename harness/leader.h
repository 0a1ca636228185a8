// A leader in an arbitrary state and the events that reach it.
#pragma once
#include "common.h"

struct Lead {
  Node n;
  std::map<u64, PrView> pv;      // peers before the event
  u64 commit = 0;
  GLog g;                        // its log before the event
};
struct LeadCfg {
  Cfg cfg = C3();
  u64 peer = 2;                  // in any replication state; the others are quiet
  PrOpt po;
  int own = -1, stable = 1, baseKind = 1;
  bool consistent = true;        // commit is what the acknowledgements allow at least
  bool ownCommit = true;         // entries of its term may be committed already
  bool applyAll = false;         // everything committed is applied (otherwise anything up to it)
};
// is commit at least what the acknowledgements say (the leader has evaluated them)
inline bool commitSettled(Node& n) {
  bool ok = true;
  for (size_t k = 0; k < n.g.e.size(); k++) {
    u64 p = n.g.base + 1 + k;
    bool acked = ackedAt(n.cfg, p, [&](u64 y) { auto pr = n.r->GetTracker().GetProgress(y); return pr ? pr->Match() : 0; });
    ok &= !(acked & (p > n.commit) & (n.g.e[k].term == n.term));
  }
  return ok;
}
inline void mkLead(Lead& x, LeadCfg c) {
  Node& n = x.n;
  n.o.cfg = c.cfg;
  n.o.baseKind = c.baseKind;
  n.o.stable = c.stable;
  n.o.unstable = 0;
  n.o.applyAll = true;
  mkNode(n);
  if (!c.applyAll) {
    u64 back = symLE("unapplied", 8);
    se_assume(back <= n.commit - n.g.base);
    n.applied = n.commit - back;
    n->GetRaftLog()->SetApplied(n.applied);
  }
  size_t before = n.g.e.size();
  anyRole(n, 1 << LEAD, c.own);
  symProgressFor(n, c.peer, c.po);
  // entries of the own term may be committed already
  if (c.ownCommit && !c.applyAll) {
#ifdef SE_THOROUGH
    size_t k = pick("owncommit", n.g.e.size() - before + 1);
#else
    size_t k = pick("owncommit", 2);
#endif
    if (k) {
      n.commit = n.g.base + before + k;
      n->GetRaftLog()->SetCommitted(n.commit);
    }
  }
  if (c.consistent) se_assume(commitSettled(n));
  for (u64 id : c.cfg.all()) x.pv.emplace(id, view(n.r.get(), id));
  x.commit = n.commit;
  x.g = n.g;
}

enum LEv { E_ACK, E_REJ, E_HB, E_PROP, E_BEAT, E_UNREACH, E_SNAPOK, E_SNAPFAIL, E_XFER, E_READ, E_CONF, E_CQ, E_N };
struct LArg { u64 from = 2, index = 0, hint = 0, hterm = 0; std::string ctx; };
inline u64 anyPos(const char* nm, const GLog& g) { return g.base + pick(nm, g.e.size() + 1); }
// the event; a.index etc. are chosen here
inline Status leadEvent(Lead& x, int ev, LArg& a) {
  Node& n = x.n;
  MsgPtr m;
  switch (ev) {
    case E_ACK:
      m = mkMsg(4, a.from, n.term);
      a.index = anyPos("aindex", n.g);
      m->set_index(a.index);
      return n->Step(m);
    case E_REJ:
      m = mkMsg(4, a.from, n.term);
      m->set_reject(true);
      // what was refused: some position the leader may have sent, the hint lies below or at it
      a.index = pick("rold", 2) ? symLE("rindex", x.g.base) : anyPos("rindex", n.g);
      a.hint = pick("hold", 2) ? symLE("rhint", x.g.base) : anyPos("rhint", n.g);
      se_assume(a.hint <= a.index);
      a.hterm = symLE("rterm", BIG);
      m->set_index(a.index);
      m->set_rejecthint(a.hint);
      m->set_logterm(a.hterm);
      return n->Step(m);
    case E_HB:
      m = mkMsg(9, a.from, n.term);
      m->set_context(a.ctx);
      return n->Step(m);
    case E_PROP: {
      m = mkMsg(2, 1, 0);
      u64 k = 1 + pick("nprop", 2);
      for (u64 i = 0; i < k; i++) {
        m->add_entries()->set_data(std::string(1, (char)('x' + i)));
        n.g.e.push_back(GEnt{n.term, 0, (char)('x' + i), 1});
      }
      return n->Step(m);
    }
    case E_BEAT: return n->Step(mkMsg(1, 1, 0));
    case E_UNREACH: return n->Step(mkMsg(10, a.from, 0));
    case E_SNAPOK: return n->Step(mkMsg(11, a.from, 0));
    case E_SNAPFAIL: m = mkMsg(11, a.from, 0); m->set_reject(true); return n->Step(m);
    case E_XFER: return n->Step(mkMsg(13, a.from, 0));
    case E_READ: m = mkMsg(15, 0, 0); m->add_entries()->set_data("rd"); return n->Step(m);
    case E_CQ: return n->Step(mkMsg(12, 1, 0));
    default: break;
  }
  return Status::OK();
}
