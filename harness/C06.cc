//@ bound one append message of at most 2 entries (thorough: 3) to a log of at most 2 stable + 2 unstable entries after an arbitrary base (or a snapshot still to be installed), any commit index within
//@ assume a correct leader's message: entry terms ascend from the previous term up to the message's term, its previous term is not below the term of what the receiver knows to be committed; a conflict with a committed entry is a fatal precondition and ends the path
//@ entry append reach=below,stale,match,extend,conflict,keeptail,commit,reject,hint
//@ entry pending reach=match,reject
//@ entry twice reach=both
//@ entry heartbeat reach=commit,same
#include "common.h"

struct Res { bool rej; };
// what the answer and the log must be; g and commit are updated
static void expect(Raft* r, GLog& g, u64& commit, const raftpb::Message& m, const std::vector<GEnt>& ents, size_t nmsg0) {
  const u64 idx = m.index(), lt = m.logterm();
  auto& ms = r->Msgs();
  se_assert(ms.size() == nmsg0 + 1, "exactly one answer");
  auto& a = *ms.back();
  se_assert((int)a.type() == 4 && a.to() == m.from(), "an append response to the sender");
  se_assert(a.term() == r->Term(), "with the local term");
  if (idx < commit) {
    se_reach("below");
    se_assert(!a.reject() & (a.index() == commit), "a message below the commit index is answered with the commit index");
    se_assert(sameLog(r, g), "and changes nothing");
    se_assert(r->GetRaftLog()->Committed() == commit, "not even the commit index");
    return;
  }
  bool ok;
  u64 have = g.term(idx, &ok);
  bool match = ok & (have == lt);
  if (match) {
    se_reach("match");
    u64 newlast = idx + ents.size();
    size_t at = idx - g.base;    // entries up to here stay
    bool conflict = false;
    for (size_t i = 0; i < ents.size(); i++) {
      if (!conflict && at + i < g.e.size() && g.e[at + i].term == ents[i].term) {
        // the same entry by log matching; either copy may be kept
        continue;
      }
      if (!conflict && at + i < g.e.size()) { se_reach("conflict"); }
      if (!conflict) g.e.resize(at + i);
      conflict = true;
      g.e.push_back(ents[i]);
    }
    if (conflict) se_reach("extend");
    else if (g.e.size() > at + ents.size()) se_reach("keeptail");
    u64 c = minu(m.commit(), newlast);
    if (c > commit) se_reach("commit");
    commit = maxu(commit, c);
    se_assert(!a.reject() & (a.index() == newlast), "the answer acknowledges the last new position");
    se_assert(r->GetRaftLog()->Committed() == commit, "commit index: the larger of its own and min(leader commit, last new position)");
    auto es = r->GetRaftLog()->AllEntries();
    se_assert(es.size() == g.e.size(), "prefix, new entries, and the old tail only if nothing conflicted");
    bool same = r->GetRaftLog()->FirstIndex() == g.base + 1;
    for (size_t i = 0; i < es.size() && i < g.e.size(); i++) same &= (es[i]->index() == g.base + 1 + i) & (es[i]->term() == g.e[i].term) & ((int)es[i]->type() == g.e[i].type);
    se_assert(same, "every position has the right index, term and type");
    bool data = true;
    for (size_t i = 0; i < es.size() && i < g.e.size(); i++) {
      char t = es[i]->data().empty() ? 0 : es[i]->data()[0];
      bool d = t == g.e[i].tag && es[i]->data().size() == g.e[i].dlen;
      if (i >= at && i - at < ents.size()) d = d || (t == ents[i - at].tag && es[i]->data().size() == ents[i - at].dlen);
      data &= d;
      if (d && t != 0) g.e[i].tag = t;
    }
    se_assert(data, "and the right content");
  } else {
    se_reach("reject");
    se_assert(sameLog(r, g), "a refused message leaves the log unchanged");
    se_assert(r->GetRaftLog()->Committed() == commit, "and the commit index");
    se_assert(a.reject() & (a.index() == idx), "the refusal names the refused position");
    // the largest own position up to it with a term not above
    u64 hi = g.base, ht = g.bterm;
    for (size_t i = 0; i < g.e.size(); i++) {
      bool take = (g.base + 1 + i <= idx) & (g.e[i].term <= lt);
      hi = take ? g.base + 1 + i : hi;
      ht = take ? g.e[i].term : ht;
    }
    se_assert((a.rejecthint() == hi) & (a.logterm() == ht), "the hint is the largest own position not beyond it whose term does not exceed the refused term");
    if (hi < idx && hi < g.last()) se_reach("hint");
  }
}

static MsgPtr mkApp(Node& n, const GLog& g, u64 commit, u64 mt, int maxEnts, std::vector<GEnt>& ents, char tag) {
  auto m = mkMsg(3, 2, mt);
  m->set_index(symIdx("mindex", g));
  m->set_logterm(symLE("mlogterm", BIG));
  se_assume((m->index() == 0) == (m->logterm() == 0));
  se_assume(m->logterm() <= mt);
  se_assume(implies(m->index() >= commit, m->logterm() >= g.term(commit)));
  u64 k = pick("nent", maxEnts + 1), t = m->logterm();
  for (u64 i = 0; i < k; i++) {
    u64 x = symIn("ment", 1, BIG);
    se_assume((x >= t) & (x <= mt));
    t = x;
    int ty = i == 1 ? 1 : 0;
    ents.push_back(GEnt{x, ty, (char)(tag + i), 1});
    auto e = m->add_entries();
    e->set_index(m->index() + 1 + i);
    e->set_term(x);
    e->set_type((raftpb::EntryType)ty);
    e->set_data(std::string(1, (char)(tag + i)));
  }
  m->set_commit(symLE("mcommit", BIG));
  return m;
}

#ifdef SE_THOROUGH
static const int ME = 3;
#else
static const int ME = 2;
#endif

ENTRY append() {
  Node n;
  n.o.maxStable = 2;
  n.o.maxUnstable = 2;
  n.o.committedStable = false;
  n.o.applyAll = true;
  mkNode(n);
  int role = anyRole(n, 1 << FOL | 1 << CAND | 1 << PRE);
  u64 mt = pick("higher", 2) ? n->Term() + symIn("dterm", 1, 8) : n->Term();
  se_assume(mt >= 1);
  if (role != FOL && mt != n->Term()) se_stop();
  std::vector<GEnt> ents;
  u64 commit = n.commit;
  auto m = mkApp(n, n.g, commit, mt, ME, ents, 'A');
  auto copy = std::make_shared<raftpb::Message>(*m);
  u64 vote = n->Vote(), t0 = n->Term();
  n->Step(m);
  if (m->index() < commit && copy->entries_size()) se_reach("stale");
  expect(n.r.get(), n.g, commit, *copy, ents, 0);
  se_assert(n->State() == kFollower && n->Lead() == 2, "the sender is followed");
  se_assert((n->Term() == mt) & (n->Vote() == (mt == t0 ? vote : 0)), "term as in the message, the vote of the term kept");
  emitNode(n.r.get());
}

// while a snapshot waits to be installed
ENTRY pending() {
  Node n;
  n.o.pend = 1;
  n.o.maxUnstable = 2;
  n.o.committedStable = false;
  mkNode(n);
  anyRole(n, 1 << FOL);
  u64 mt = n->Term();
  std::vector<GEnt> ents;
  u64 commit = n->GetRaftLog()->Committed();
  auto m = mkApp(n, n.g, commit, mt, 2, ents, 'A');
  auto copy = std::make_shared<raftpb::Message>(*m);
  n->Step(m);
  expect(n.r.get(), n.g, commit, *copy, ents, 0);
  emitNode(n.r.get());
}

// two messages in a row: what the first left is what the second meets
ENTRY twice() {
  Node n;
  n.o.baseKind = 1;
  n.o.stable = 1;
  n.o.unstable = 1;
  n.o.symCommit = false;
  mkNode(n);
  n->BecomeFollower(n.term, 2);
  std::vector<GEnt> e1, e2;
  u64 commit = n.commit;
  auto m = mkApp(n, n.g, commit, n.term, 2, e1, 'A');
  auto copy = std::make_shared<raftpb::Message>(*m);
  n->Step(m);
  expect(n.r.get(), n.g, commit, *copy, e1, 0);
  u64 t2 = pick("newterm", 2) ? n.term + 1 : n.term;
  auto m2 = mkApp(n, n.g, commit, t2, 1, e2, 'P');
  auto copy2 = std::make_shared<raftpb::Message>(*m2);
  n->Step(m2);
  expect(n.r.get(), n.g, commit, *copy2, e2, 1);
  se_reach("both");
  emitNode(n.r.get());
}

// heartbeats move the commit index, never the log
ENTRY heartbeat() {
  Node n;
  n.o.maxStable = 2;
  n.o.maxUnstable = 1;
  n.o.committedStable = false;
  n.o.applyAll = true;
  mkNode(n);
  anyRole(n, 1 << FOL | 1 << CAND);
  u64 mt = n->Term();
  se_assume(mt >= 1);
  auto m = mkMsg(8, 3, mt);
  m->set_commit(symIdx("mcommit", n.g, 0));
  se_assume(m->commit() <= n.g.last());
  if (pick("ctx", 2)) m->set_context("r1");
  std::string ctx = m->context();
  u64 c = maxu(n.commit, m->commit());
  n->Step(m);
  se_assert(sameLog(n.r.get(), n.g), "a heartbeat leaves the log");
  se_assert(n->GetRaftLog()->Committed() == c, "the commit index becomes the larger of both");
  se_assert(n->Msgs().size() == 1, "one answer");
  auto& a = *n->Msgs()[0];
  se_assert(((int)a.type() == 9) & (a.to() == 3) & (a.term() == mt), "a heartbeat response to the sender");
  se_assert(a.context() == ctx, "with the context of the heartbeat");
  se_reach(c > n.commit ? "commit" : "same");
  emitNode(n.r.get());
}
