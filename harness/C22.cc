//@ bound one snapshot message of any position, term (not below the receiver's) and of 7 configurations (receiver a voter, a learner, only in the outgoing half, demoted when leaving, absent) to a follower, candidate or pre-candidate of 4 configurations, with at most 1 stored + 1 not yet stored entry after an arbitrary base or an older snapshot still to be installed; then one append and one ready cycle
//@ assume a snapshot comes from the leader of its term, its term does not exceed the message's
//@ entry install reach=installed,forward,behind,outsider,learner,outgoing,demoted,elected
//@ entry offered reach=alone,with_entry,with_committed,stepwise
//@ entry twice reach=newer,older,repeat
#include "cfg.h"
#include "ready.h"

static Cfg before(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return CL();
    case 2: return CJ2();
    default: return CN();
  }
}
static Cfg after(u64 k) {
  switch (k) {
    case 0: return C3();
    case 1: return Cfg{{1, 2, 3, 4}, {}, {5}, {}};
    case 2: return CL();
    case 3: { Cfg c = CJO(); c.auto_leave = true; return c; }
    case 4: return CJLN();
    case 5: return CN();
    default: return Cfg{{2, 3}, {2, 4}, {5}, {4}};
  }
}
static MsgPtr snapMsg(u64 from, u64 term, u64 idx, u64 t, const Cfg& c) {
  auto m = mkMsg(7, from, term);
  auto s = m->mutable_snapshot();
  s->mutable_metadata()->set_index(idx);
  s->mutable_metadata()->set_term(t);
  *s->mutable_metadata()->mutable_conf_state() = c.cs();
  s->set_data("SNAP");
  return m;
}
static Abs absCfg(const Cfg& c) {
  Abs a;
  a.in.insert(c.v.begin(), c.v.end());
  a.out.insert(c.o.begin(), c.o.end());
  a.learn.insert(c.l.begin(), c.l.end());
  a.next.insert(c.ln.begin(), c.ln.end());
  a.autol = c.auto_leave;
  return a;
}
static bool tracks(Raft* r, const Cfg& c) {
  Abs a = absCfg(c);
  if (!(absOf(r->GetTracker().GetConfig()) == a)) return false;
  std::set<u64> ids;
  for (auto& p : r->GetTracker().GetProgressMap()) { ids.insert(p.first); if (p.second->IsLearner() != (bool)a.learn.count(p.first)) return false; }
  return ids == a.all();
}
static bool sameShot(const LogShot& a, const LogShot& b, bool commitToo = true) {
  if (a.term.size() != b.term.size() || a.type != b.type || a.data != b.data) return false;
  bool ok = (a.first == b.first) & (a.last == b.last) & (a.applied == b.applied) & (a.bterm == b.bterm);
  if (commitToo) ok &= a.commit == b.commit;
  for (size_t i = 0; i < a.term.size(); i++) ok &= a.term[i] == b.term[i];
  return ok;
}
// the whole effect of a snapshot message
static void snapshotStep(Node& n, u64 mt, u64 from, u64 si, u64 st, const Cfg& nc) {
  Raft* r = n.r.get();
  LogShot a = shot(r);
  u64 t = r->Term(), v = r->Vote();
  Cfg oldc = n.cfg;
  bool held = n.g.term(si) == st;
  { bool in = false; n.g.term(si, &in); held &= in; }
  r->ClearMsgs();
  n->Step(snapMsg(from, mt, si, st, nc));
  se_assert((r->State() == kFollower) & (r->Term() == mt) & (r->Lead() == from), "the receiver follows the sender");
  se_assert(r->Vote() == (mt > t ? 0 : v), "its vote is what the term says");
  se_assert(r->Msgs().size() == 1, "one answer");
  auto& resp = *r->Msgs()[0];
  se_assert(((int)resp.type() == 4) & (resp.to() == from) & (resp.term() == mt) & !resp.reject(), "an acknowledgement to the sender");
  LogShot b = shot(r);
  if (si <= a.commit) {
    se_assert(sameShot(a, b) && tracks(r, oldc), "a snapshot that is not ahead changes nothing");
    se_assert(resp.index() == a.commit, "the commit index is acknowledged");
    se_reach("behind");
  } else if (!nc.member(1)) {
    se_assert(sameShot(a, b) && tracks(r, oldc), "a snapshot without the receiver changes nothing");
    se_assert(resp.index() == a.commit, "the commit index is acknowledged");
    se_reach("outsider");
  } else if (held) {
    se_assert(sameShot(a, b, false) && tracks(r, oldc), "a log that already holds the position is kept");
    se_assert((b.commit == si) & (resp.index() == si), "only its commit index advances");
    se_reach("forward");
    n.commit = si;
  } else {
    se_assert((b.first == si + 1) & (b.last == si) & (b.commit == si) & b.term.empty(), "the snapshot replaces the log");
    se_assert((b.bterm == st) & (r->GetRaftLog()->LastTerm() == st) & (b.applied == a.applied), "with its position and term as the last");
    se_assert(tracks(r, nc), "and the configuration, completely");
    se_assert(r->IsLearner() == nc.learner(1), "including the receiver's own part in it");
    se_assert(resp.index() == si, "its position is acknowledged");
    auto us = r->GetRaftLog()->UnstableSnapshot();
    se_assert(us && (us->metadata().index() == si) & (us->metadata().term() == st) & (us->data() == "SNAP"), "it waits to be installed");
    se_assert(!r->Promotable(), "until then the node does not campaign");
    se_reach("installed");
    if (nc.learner(1)) se_reach("learner");
    if (!Cfg::has(nc.v, 1) && Cfg::has(nc.o, 1)) se_reach(Cfg::has(nc.ln, 1) ? "demoted" : "outgoing");
    n.cfg = nc;
    n.g.base = si; n.g.bterm = st; n.g.e.clear();
    n.commit = si;
  }
}

ENTRY install() {
  Node n;
  u64 bk = pick("before", 4);
  n.o.cfg = before(bk);
  n.o.baseKind = bk == 3 ? 0 : 1;
  if (bk != 3) n.o.pend = bk ? 0 : -1;
  n.o.maxUnstable = 1;
#ifdef SE_THOROUGH
  n.o.maxStable = n.o.maxUnstable = 2;
#endif
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 t = n->Term();
  u64 mt = pick("newer", 2) ? symIn("mterm", 1, BIG) : t;
  se_assume((mt >= t) & (mt >= 1));
  // nobody else leads the term
  if (role == FOL && mt == t) se_assume((n->Lead() == 0) | (n->Lead() == 2));
  u64 si = symIdx("sindex", n.g), st = symIn("sterm", 1, BIG);
  se_assume((si != 0) & (st <= mt));
  // what it says about committed positions is true
  { bool in = false; u64 x = n.g.term(si, &in); se_assume(!in | (si > n.commit) | (x == st)); }
  u64 ak = pick("after", 7);
  snapshotStep(n, mt, 2, si, st, after(ak));
  if (role != FOL) se_reach("elected");
  emitNode(n.r.get());
}

// newer, older or the same one arrives while one waits
ENTRY twice() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 1; n.o.unstable = 0;
  mkNode(n);
  toFollower(n);
  u64 t = n->Term();
  se_assume((n->Lead() == 0) | (n->Lead() == 2));
  u64 si = n.g.last() + 1 + pick("ahead", 2), st = symIn("sterm", 1, BIG);
  se_assume((st >= n.g.lastTerm()) & (st <= t));
  snapshotStep(n, t, 2, si, st, after(pick("after1", 3)));
  u64 k = pick("second", 3);
  u64 s2 = k == 0 ? si : k == 1 ? si + 1 : si - 1;
  u64 t2 = symIn("sterm2", 1, BIG);
  se_assume(k == 0 ? t2 == st : k == 1 ? ((t2 >= st) & (t2 <= t)) : (t2 <= st));
  se_reach(k == 0 ? "repeat" : k == 1 ? "newer" : "older");
  snapshotStep(n, t, 2, s2, t2, after(pick("after2", 3)));
  emitNode(n.r.get());
}

// what the application gets to see afterwards
ENTRY offered() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.unstable = 0;
  mkNode(n);
  toFollower(n);
  u64 t = n->Term();
  se_assume((n->Lead() == 0) | (n->Lead() == 2));
  wrap(x);
  Raft* r = x.r();
  u64 si = n.g.last() + 1 + pick("ahead", 2), st = symIn("sterm", 1, BIG);
  se_assume((st >= n.g.lastTerm()) & (st <= t));
  u64 ak = pick("after", 3);
  x.rn->Step(snapMsg(2, t, si, st, after(ak)));
  u64 more = pick("more", 3);
  auto append = [&](u64 k) {
    auto m = mkMsg(3, 2, t);
    m->set_index(si);
    m->set_logterm(st);
    auto e = m->add_entries();
    e->set_index(si + 1); e->set_term(t); e->set_data("N");
    m->set_commit(si + (k == 2));
    x.rn->Step(m);
  };
  bool later = pick("later", 2);
  if (more && !later) append(more);
  se_assert(x.rn->HasReady(), "there is something to do");
  auto rd = x.rn->GetReady();
  se_assert(rd->snapshot && (rd->snapshot->metadata().index() == si) & (rd->snapshot->metadata().term() == st) & (rd->snapshot->data() == "SNAP"), "the snapshot is offered at once");
  se_assert(rd->snapshot->metadata().conf_state() == after(ak).cs(), "with its configuration");
  bool ok = true;
  u64 want = si + 1;
  for (auto& e : rd->committed_entries) { ok &= (e->index() == want); want++; }
  se_assert(ok, "entries to apply follow it");
  se_assert((rd->committed_entries.size() == (more == 2 && !later)) & (rd->entries.size() == (more && !later)), "nothing else to store or apply");
  se_assert(rd->hard_state.commit() == si + (more == 2 && !later), "the state to store has its position");
  if (!more) se_reach("alone");
  else if (!later) se_reach(more == 1 ? "with_entry" : "with_committed");
  // stored and applied
  n.st->ApplySnapshot(rd->snapshot);
  n.st->Append(rd->entries);
  n.st->SetHardState(rd->hard_state);
  if (more && later) append(more);
  x.rn->Advance();
  auto l = r->GetRaftLog();
  u64 ap = si + (more == 2 && !later);
  se_assert((l->Applied() == ap) & (l->Committed() == si + (more == 2)) & !l->HasPendingSnapshot(), "it is installed");
  se_assert((l->FirstIndex() == si + 1) & (l->LastIndex() == si + (more ? 1 : 0)), "the log goes on after it");
  se_assert(r->Promotable() == after(ak).voter(1), "the node may campaign again if it votes");
  if (more == 2 && later) {
    auto rd2 = x.rn->GetReady();
    se_assert(IsEmptySnap(rd2->snapshot), "it is offered once");
    se_assert(rd2->committed_entries.size() == 1 && rd2->committed_entries[0]->index() == si + 1, "then the entries behind it");
    se_reach("stepwise");
  }
  emitNode(r);
}
