//@ bound one step (any message a correct peer may have sent, a tick, a campaign, a proposal, a crash and restart after it) of a node in any role, in a cluster of 3 voters (thorough: also overlapping halves {1,2}/{2,3}, 2 voters, and the node as a learner) whose global state is any that satisfies the invariant: up to 3 terms (thorough: 4), 3 log positions, messages of up to 2 entries; the invariant holds initially, is kept by every such step and implies safety, so schedules of any length within these sizes are covered
//@ assume the configuration does not change during the step (its changes are C19, C20 and C21); what a Ready holds is stored before its messages are sent (C13 and C14 decide that it can be)
//@ assume an entry is identified by its index and term; that content is kept is decided by C06, C09 and C10
//@ entry init reach=fresh
//@ entry safety reach=agree
//@ entry app reach=appended,truncated,matched,refused,stale,committed
//@ entry heartbeat reach=committed,follows,stale
//@ entry snapshot reach=restored,forwarded,ignored
//@ entry vote reach=granted,refused
//@ entry prevote reach=granted,refused
//@ entry voteresp reach=elected,waits,lost
//@ entry ack reach=committed,waits,reject
//@ entry campaign reach=candidate,precandidate
//@ entry other reach=proposal,beat,hbresp,timeoutnow,stepdown,transfer,readresp
#include "ready.h"

#ifdef SE_THOROUGH
constexpr int K = 4, N = 3, M = 3;   // terms, log positions, nodes
#else
constexpr int K = 3, N = 3, M = 3;
#endif

struct Log { u64 len = 0; u64 e[N + 1] = {0}; };
// the cluster: what its nodes hold, and what has happened so far
struct World {
  Cfg cfg = C3();
  u64 ldr[K + 1] = {0};          // who was elected in a term
  Log ll[K + 1];                 // the longest log of that leader
  u64 term[M + 1] = {0}, commit[M + 1] = {0};
  Log log[M + 1];
  u64 voted[M + 1][K + 1] = {{0}};   // whom a node voted for
  u64 acked[M + 1][K + 1] = {{0}};   // up to where it acknowledged the leader of a term
  bool cand[M + 1] = {false};        // campaigning in its term
};
// a choice of values that does not split the path
__attribute__((noinline)) static u64 ch(bool c, u64 a, u64 b) { return c ? a : b; }
static u64 sel(const u64* a, int n, u64 i) { u64 r = 0; for (int k = 0; k <= n; k++) r |= a[k] & (0 - (u64)(i == (u64)k)); return r; }
static bool has(const Log& x, const Log& y, int k) {   // both have the same first k entries
  bool ok = (x.len >= (u64)k) & (y.len >= (u64)k);
  for (int i = 1; i <= k; i++) ok &= x.e[i] == y.e[i];
  return ok;
}
// by a symbolic number
static bool hasS(const Log& x, const Log& y, u64 k) { bool ok = k == 0; for (int i = 1; i <= N; i++) ok |= (k == (u64)i) & has(x, y, i); return ok; }
// nobody can make position k of term t's leader committed any more
static bool blocked(const World& w, int t, int k) { return quorum(w.cfg, [&](u64 j) { return (w.term[j] > (u64)t) & (w.acked[j][t] < (u64)k); }); }
// position k of term t's leader is committed by its quorum
static bool chosen(const World& w, int t, int k) {
  return (w.ll[t].len >= (u64)k) & (w.ll[t].e[k] == (u64)t) & quorum(w.cfg, [&](u64 j) { return w.acked[j][t] >= (u64)k; });
}
// the first c entries of x are committed, by a term of at most t
static bool settled(const World& w, const Log& x, u64 c, u64 t) {
  bool ok = c == 0;
  for (int s = 1; s <= K; s++)
    for (int k = 1; k <= N; k++) ok |= ((u64)s <= t) & (c <= (u64)k) & chosen(w, s, k) & hasS(x, w.ll[s], c);
  return ok;
}
struct Inv { bool votes = true, matching = true, acks = true, commits = true, complete = true, shape = true; bool all() const { return votes & matching & acks & commits & complete & shape; } };
static Inv inv(const World& w) {
  Inv v;
  for (int t = 1; t <= K; t++) {
    v.shape &= (w.ldr[t] != 0) | (w.ll[t].len == 0);
    // an elected leader had its quorum
    v.votes &= (w.ldr[t] == 0) | quorum(w.cfg, [&](u64 j) { return (w.voted[j][t] == w.ldr[t]) & (w.voted[j][t] != 0); });
    for (int k = 1; k <= N; k++) {
      v.shape &= (w.ll[t].len < (u64)k) | ((w.ll[t].e[k] >= 1) & (w.ll[t].e[k] <= (u64)t) & (w.ll[t].e[k] >= w.ll[t].e[k - 1]));
      v.shape &= (w.ll[t].len >= (u64)k) | (w.ll[t].e[k] == 0);
    }
  }
  for (int j = 1; j <= M; j++) {
    for (int k = 1; k <= N; k++) {
      v.shape &= (w.log[j].len < (u64)k) | ((w.log[j].e[k] >= 1) & (w.log[j].e[k] <= w.term[j]) & (w.log[j].e[k] >= w.log[j].e[k - 1]));
      v.shape &= (w.log[j].len >= (u64)k) | (w.log[j].e[k] == 0);
    }
    v.shape &= w.commit[j] <= w.log[j].len;
    for (int t = 1; t <= K; t++) {
      v.votes &= ((u64)t <= w.term[j]) | (w.voted[j][t] == 0);
      // whoever got a vote campaigned, and so voted for itself
      for (int c = 1; c <= M; c++) v.votes &= (w.voted[j][t] != (u64)c) | (w.voted[c][t] == (u64)c);
      bool now = w.term[j] == (u64)t;
      v.votes &= !(w.cand[j] & now) | ((w.voted[j][t] == (u64)j) & (w.ldr[t] != (u64)j));
      u64 a = w.acked[j][t];
      v.acks &= (a == 0) | ((w.ldr[t] != 0) & (a <= w.ll[t].len) & (w.term[j] >= (u64)t));
      v.acks &= !now | hasS(w.log[j], w.ll[t], a);
      // what was acknowledged is kept unless it can never be committed
      for (int k = 1; k <= N; k++) {
        bool mine = (a >= (u64)k) & (w.ll[t].e[k] == (u64)t);
        v.acks &= !mine | has(w.log[j], w.ll[t], k) | blocked(w, t, k);
        // and a running candidate it voted for has it too
        for (int t2 = t + 1; t2 <= K; t2++)
          for (int c = 1; c <= M; c++) {
            bool run = (w.voted[j][t2] == (u64)c) & (w.term[c] == (u64)t2) & w.cand[c];
            v.complete &= !(mine & run) | has(w.log[c], w.ll[t], k) | blocked(w, t, k);
          }
      }
    }
    v.commits &= settled(w, w.log[j], w.commit[j], w.term[j]);
  }
  // an entry of term t stands for its leader's whole log up to it
  auto match = [&](const Log& x) {
    for (int k = 1; k <= N; k++)
      for (int t = 1; t <= K; t++) v.matching &= !((x.len >= (u64)k) & (x.e[k] == (u64)t)) | ((w.ldr[t] != 0) & has(x, w.ll[t], k));
  };
  for (int j = 1; j <= M; j++) match(w.log[j]);
  for (int t = 1; t <= K; t++) match(w.ll[t]);
  // later leaders have everything that may be committed
  for (int t = 1; t <= K; t++)
    for (int t2 = t + 1; t2 <= K; t2++)
      for (int k = 1; k <= N; k++)
        v.complete &= !((w.ldr[t2] != 0) & (w.ll[t].len >= (u64)k) & (w.ll[t].e[k] == (u64)t)) | has(w.ll[t2], w.ll[t], k) | blocked(w, t, k);
  return v;
}
static void anyLog(Log& l, const char* nm) {
  l.len = se_sym(nm, 2);
  for (int k = 1; k <= N; k++) l.e[k] = se_sym(nm, 3);
}
static bool small(const Log& l) { bool ok = l.len <= (u64)N; for (int k = 1; k <= N; k++) ok &= l.e[k] <= (u64)K; return ok; }
// everything but node `real`
static World anyWorld(const Cfg& c, int real) {
  World w;
  w.cfg = c;
  bool ok = true;
  for (int t = 1; t <= K; t++) {
    w.ldr[t] = se_sym("leader", 2);
    anyLog(w.ll[t], "leaderlog");
    ok &= small(w.ll[t]);
  }
  for (int j = 1; j <= M; j++) {
    if (j != real) {
      w.term[j] = se_sym("term", 3);
      w.commit[j] = se_sym("commit", 2);
      w.cand[j] = symB("cand");
      anyLog(w.log[j], "log");
      ok &= small(w.log[j]) & (w.term[j] <= (u64)K);
    }
    for (int t = 1; t <= K; t++) {
      w.voted[j][t] = se_sym("voted", 2);
      w.acked[j][t] = se_sym("acked", 2);
    }
  }
  se_assume(ok);
  return w;
}

// ---- the real node -----------------------------------------------------------------
struct Me {
  World w;
  RN x;
  int base = 0, len = 0;
  u64 t0 = 0;
  bool crash = false;
  MsgPtrs out;
  Raft* r() { return x.r(); }
};
static Cfg cfgs(u64 k) { return k == 0 ? C3() : k == 1 ? CJ2() : k == 2 ? C2() : CL(); }
static void mk(Me& m, int mask, bool flags = false, bool answers = false) {
  Node& n = m.x.n;
#ifdef SE_THOROUGH
  n.o.cfg = cfgs(pick("cfg", 4));
#else
  n.o.cfg = C3();
#endif
  n.cfg = n.o.cfg;
  m.w = anyWorld(n.cfg, 1);
  World& w = m.w;
#ifdef SE_THOROUGH
  flags = answers = true;
#endif
  n.o.checkQuorum = flags && pick("cq", 2);
#ifdef SE_THOROUGH
  n.o.preVote = flags && pick("pv", 2);
#else
  n.o.preVote = n.o.checkQuorum;
#endif
  m.base = (int)pick("base", 2);
  m.len = m.base + (int)pick("len", 3 - m.base);
  Log& l = w.log[1];
  l.len = m.len;
  bool ok = true;
  for (int i = 1; i <= m.len; i++) { l.e[i] = se_sym("myentry", 3); ok &= (l.e[i] >= 1) & (l.e[i] <= (u64)K) & (l.e[i] >= l.e[i - 1]); }
  u64 t = se_sym("myterm", 3);
  ok &= (t <= (u64)K) & (t >= l.e[m.len]);
  se_assume(ok);
  n.term = t;
  n.vote = sel(w.voted[1], K, t);
  int commit = m.base + (int)pick("mycommit", m.len - m.base + 1);
  struct S : MemoryStorage {
    raftpb::ConfState cs;
    using MemoryStorage::MemoryStorage;
    std::tuple<raftpb::HardState, raftpb::ConfState, Status> InitialState() const override {
      auto t = MemoryStorage::InitialState();
      return std::make_tuple(std::get<0>(t), cs, Status::OK());
    }
  };
  auto st = std::make_shared<S>(hlog());
  st->cs = n.cfg.cs();
  n.st = st;
  if (m.base) {
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(m.base);
    snap->mutable_metadata()->set_term(l.e[m.base]);
    *snap->mutable_metadata()->mutable_conf_state() = n.cfg.cs();
    n.st->ApplySnapshot(snap);
  }
  int role = FOL;
  { int ks[4], c = 0; for (int i = 0; i < 4; i++) if (mask >> i & 1) ks[c++] = i; role = ks[c == 1 ? 0 : pick("role", c)]; }
  if (!n.cfg.voter(1) && role != FOL) se_stop();
  EntryPtrs es;
  for (int i = m.base + 1; i <= m.len; i++) es.push_back(mkEnt(i, l.e[i], 'a'));
  n.st->Append(es);
  raftpb::HardState hs;
  hs.set_term(t);
  hs.set_vote(n.vote);
  hs.set_commit(commit);
  n.st->SetHardState(hs);
  n.conf = mkConf(n.o, n.st);
  n.conf.applied = commit;
  n.r = Raft::New(n.conf);
  n.g.base = m.base;
  for (int i = m.base + 1; i <= m.len; i++) n.g.e.push_back(GEnt{l.e[i], 0, 'a', 1});
  n.g.bterm = l.e[m.base];
  m.x.role = role;
  w.cand[1] = false;
  if (role == FOL) {
    u64 lead = se_sym("lead", 2);
    se_assume((lead == 0) | (lead > 1));
    n.r->BecomeFollower(t, lead);
  } else if (role == PRE) n.r->BecomePreCandidate();
  else {
    se_assume((t >= 1) & (n.vote == 1) & (l.e[m.len] < t));
    n.r->SetTerm(t - 1);
    n.r->BecomeCandidate();
    if (role == CAND) {
      w.cand[1] = true;
      if (answers) for (u64 id : n.cfg.voters()) if (id != 1) { u64 a = pick("answer", 3); if (a) n.r->GetTracker().RecordVote(id, a == 1); if (a == 1) se_assume(sel(w.voted[id], K, t) == 1); }
    } else {
      n.r->BecomeLeader();
      m.len++;
      l.len = m.len;
      l.e[m.len] = t;
      n.g.e.push_back(GEnt{t, 0, 0, 0});
      if (m.len < N && pick("own", 2)) { m.len++; l.len = m.len; l.e[m.len] = t; n.r->AppendEntry(mkEnt(0, 0, 'z')); n.g.e.push_back(GEnt{t, 0, 'z', 1}); }
    }
    n.r->ClearMsgs();
    // stored
    auto rl = n.r->GetRaftLog();
    n.st->Append(rl->UnstableEntries());
    rl->StableTo(rl->LastIndex(), rl->LastTerm());
  }
  w.term[1] = t;
  w.commit[1] = n.r->GetRaftLog()->Committed();
  wrap(m.x);
  m.x.rn->GetRaft();
  m.t0 = t;
}
// what the leader knows about the others
static void progress(Me& m, u64 any) {
  PrOpt po;
  po.window = false;
  po.flags = false;
  Node& n = m.x.n;
  Raft* r = m.r();
  for (u64 id : n.cfg.all()) {
    if (id == 1) continue;
    auto p = r->GetTracker().GetProgress(id);
    if (id == any) {
      u64 match = pick("match", m.len + 1);
      u64 st = pick("state", 3);
#ifdef SE_THOROUGH
      u64 next = match + 1 + pick("ahead", m.len - match + 1);
#else
      u64 next = m.len + 1;
      if (st != 1 && match < (u64)m.len && pick("ahead", 2) == 0) next = match + 1;
      if (st == 2) next = match + 1;
#endif
      if (st == 0) { p->BecomeProbe(); p->SetMatch(match); p->SetNext(next); }
      else if (st == 1) { p->SetMatch(match); p->BecomeReplicate(); p->SetNext(next); }
      else { if (!m.base || next != match + 1) se_stop(); p->SetMatch(match); p->SetNext(next); p->BecomeSnapshot(m.base); }
    } else {
      u64 match = se_sym("qmatch", 2);
      se_assume(match <= (u64)m.len);
      p->BecomeProbe();
      p->SetMatch(match);
      p->SetNext(match + 1);
      p->SetProbeSent(true);
    }
  }
}
// the role's own invariants; assumed before and asserted after a step
static bool roleInv(const World& w, Raft* r) {
  u64 t = r->Term();
  bool ok = r->Vote() == sel(w.voted[1], K, t);
  u64 ld = sel(w.ldr, K, t);
  if (r->State() == kLeader) {
    ok &= ld == 1;
    for (int s = 1; s <= K; s++) {
      ok &= (t != (u64)s) | ((w.ll[s].len == w.log[1].len) & hasS(w.log[1], w.ll[s], w.log[1].len) & (w.acked[1][s] == w.log[1].len));
      for (u64 id : w.cfg.all()) { auto p = r->GetTracker().GetProgress(id); if (p) ok &= (t != (u64)s) | (p->Match() <= w.acked[id][s]); }
    }
  } else {
    ok &= (r->Lead() == 0) | (ld == r->Lead());
  }
  if (r->State() == kCandidate) {
    ok &= (ld != 1) & (r->Vote() == 1);
    // it counts no vote that it was not given
    auto tally = r->GetTracker().TallyVotes();
    std::vector<u64> vs;
    for (u64 id : w.cfg.voters()) vs.push_back(id);
    ok &= atLeast(vs, std::get<0>(tally), [&](u64 id) { return sel(w.voted[id], K, t) == 1; });
  }
  return ok;
}
// what is true of a message `from` sent
static bool truth(const World& w, const raftpb::Message& m, u64 from) {
  u64 t = m.term();
  bool ok = true;
  u64 to = m.to();
  switch ((int)m.type()) {
    case 3:
      ok = false;
      for (int s = 1; s <= K; s++) {
        const Log& l = w.ll[s];
        bool b = (t == (u64)s) & (w.ldr[s] == from) & (m.index() <= l.len) & (m.logterm() == sel(l.e, N, m.index()));
        for (int i = 0; i < m.entries_size(); i++) {
          u64 at = m.index() + 1 + i;
          b &= (m.entries(i).index() == at) & (at <= l.len) & (m.entries(i).term() == sel(l.e, N, at));
        }
        ok |= b & settled(w, l, m.commit(), t);
      }
      break;
    case 8:
      ok = false;
      for (int s = 1; s <= K; s++) {
        u64 a = 0;
        for (int j = 1; j <= M; j++) a = ch(to == (u64)j, w.acked[j][s], a);
        ok |= (t == (u64)s) & (w.ldr[s] == from) & settled(w, w.ll[s], m.commit(), t) & (m.commit() <= a);
      }
      break;
    case 7:
      ok = false;
      for (int s = 1; s <= K; s++) {
        auto& md = m.snapshot().metadata();
        ok |= (t == (u64)s) & (w.ldr[s] == from) & settled(w, w.ll[s], md.index(), t) & (md.index() >= 1) & (md.term() == sel(w.ll[s].e, N, md.index()));
      }
      break;
    case 5:
      for (int c = 1; c <= M; c++) {
        bool it = from == (u64)c;
        bool run = w.cand[c] & (w.term[c] == t);
        ok &= !it | ((t <= w.term[c]) & (sel(w.voted[c], K, t) == (u64)c) & (!run | ((m.index() == w.log[c].len) & (m.logterm() == sel(w.log[c].e, N, w.log[c].len)))));
      }
      break;
    case 6:
      if (!m.reject()) for (int c = 1; c <= M; c++) ok &= (from != (u64)c) | (sel(w.voted[c], K, t) == to);
      break;
    case 4:
      if (!m.reject()) for (int c = 1; c <= M; c++) ok &= (from != (u64)c) | (m.index() <= sel(w.acked[c], K, t));
      break;
    default: break;
  }
  return ok;
}

// Reads the node after the step, brings the account of what has happened up to
// date and decides whether the invariant still holds.
static void after(Me& m, const MsgPtr& in) {
  World& w = m.w;
  Raft* r0 = m.r();
  bool wasLeader = m.x.role == LEAD, wasCand = m.x.role == CAND;
  // what the assumed state is, known before the step
  World pre = w;
  std::unique_ptr<RawNode> again;
  Raft* r = r0;
  u64 newTerm = r->Term();
  bool elected = r->State() == kLeader && !(wasLeader);
  m.out = r->Msgs();
  u64 selfAck = r->State() == kLeader ? r->GetRaftLog()->LastIndex() : 0;
  if (m.crash) {
    if (m.x.rn->HasReady()) {
      auto rd = m.x.rn->GetReady();
      m.out = rd->messages;
      if (!IsEmptySnap(rd->snapshot)) m.x.st->ApplySnapshot(rd->snapshot);
      m.x.st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) m.x.st->SetHardState(rd->hard_state);
    }
    Raft::Config c = m.x.n.conf;
    c.applied = std::get<0>(m.x.st->FirstIndex()) - 1;
    again = RawNode::New(c);
    r = again->GetRaft();
  }
  auto l = r->GetRaftLog();
  u64 t = r->Term();
  se_assume(t <= (u64)K);
  u64 first = l->FirstIndex(), last = l->LastIndex();
  se_assume(last <= (u64)N);
  World q = w;
  q.term[1] = t;
  q.commit[1] = l->Committed();
  q.log[1] = Log();
  q.log[1].len = last;
  // what was compacted away before is known; what a snapshot replaced is its leader's
  bool restored = first > (u64)m.base + 1;
  for (u64 i = 1; i <= last; i++) {
    u64 e;
    if (i + 1 < first) {
      e = w.log[1].e[i];
      if (restored) { e = 0; for (int s = 1; s <= K; s++) e = ch(in->term() == (u64)s, w.ll[s].e[i], e); }
    } else {
      e = termAt(r, i);
    }
    q.log[1].e[i] = e;
  }
  for (int s = 1; s <= K; s++) q.voted[1][s] = ch(t == (u64)s, r->Vote(), w.voted[1][s]);
  q.cand[1] = r->State() == kCandidate;
  if (elected) for (int s = 1; s <= K; s++) q.ldr[s] = ch(newTerm == (u64)s, 1, w.ldr[s]);
  if (selfAck) {
    for (int s = 1; s <= K; s++) {
      bool h = newTerm == (u64)s;
      q.acked[1][s] = ch(h, selfAck, w.acked[1][s]);
      q.ll[s].len = ch(h, last, w.ll[s].len);
      for (int i = 1; i <= N; i++) q.ll[s].e[i] = ch(h, q.log[1].e[i], w.ll[s].e[i]);
    }
  }
  for (auto& o : m.out)
    if (o->type() == raftpb::MsgAppResp && !o->reject())
      for (int s = 1; s <= K; s++) q.acked[1][s] = ch((o->term() == (u64)s) & (o->index() > q.acked[1][s]), o->index(), q.acked[1][s]);
  // the state before was one the cluster can be in
  // (assumed only now: it does not matter to what the node does)
  // what holds afterwards
  Inv v = inv(q);
  se_assert(t >= w.term[1], "the term does not decrease");
  bool hist = true, only = true, grows = true;
  for (int s = 1; s <= K; s++) {
    hist &= (w.voted[1][s] == 0) | (q.voted[1][s] == w.voted[1][s]);
    only &= (w.ldr[s] == 0) | (q.ldr[s] == w.ldr[s]);
    if (elected) only &= (newTerm != (u64)s) | (w.ldr[s] == 0);
    grows &= hasS(q.ll[s], w.ll[s], w.ll[s].len);
  }
  se_assert(hist, "a vote once given stays");
  se_assert(only, "a term has at most one leader");
  se_assert(grows, "a leader only appends");
  bool keeps = true;
  if (wasCand && r->State() == kCandidate) keeps = (t != w.term[1]) | ((q.log[1].len == w.log[1].len) & hasS(q.log[1], w.log[1], w.log[1].len));
  se_assert(keeps, "a candidate's log does not change");
  se_assert(v.shape, "logs keep their shape");
  se_assert(v.votes, "leaders have a quorum of votes");
  se_assert(v.matching, "equal positions and terms mean equal logs up to there");
  se_assert(v.acks, "what was acknowledged is kept");
  se_assert(v.complete, "later leaders and candidates hold what may be committed");
  se_assert(v.commits, "what a node takes as committed is held by a quorum");
  bool same = true;
  for (int j = 2; j <= M; j++)
    for (int k = 1; k <= N; k++) same &= !((q.commit[1] >= (u64)k) & (q.commit[j] >= (u64)k)) | (q.log[1].e[k] == q.log[j].e[k]);
  se_assert(same, "no two nodes commit different entries at a position");
  se_assert(roleInv(q, r), "the node knows nothing untrue");
  for (auto& o : m.out) {
    bool tr = (o->from() == 1) & truth(q, *o, 1);
    se_assert(tr, "the messages it sends are true");
  }
  emitNode(r);
}
static bool g_ok;
// the step: the role's knowledge is read before
static void go(Me& m, const MsgPtr& in, bool local = false) {
  // what the state and the message have to satisfy; assumed only after the step, which
  // spares the solver, except where the node takes the state for impossible
  bool ok = roleInv(m.w, m.r()) & inv(m.w).all();
  if (in) ok &= truth(m.w, *in, in->from());
  g_ok = ok;
  g_onFatal = [] { se_assume(g_ok); };
  g_fatal = FATAL_BAD;
#ifdef SE_THOROUGH
  m.crash = pick("crash", 2);
#else
  m.crash = in && (in->type() == 3 || in->type() == 5 || in->type() == 7 || in->type() == 14) ? pick("crash", 2) : false;
#endif
  if (in) { if (local) m.r()->Step(in); else m.x.rn->Step(in); }
  se_assume(ok);
}
// the other two are alike in a plain configuration
static u64 sender() {
#ifdef SE_THOROUGH
  return 2 + pick("from", 2);
#else
  return 2;
#endif
}
static u64 smallTerm(const char* nm) { u64 t = se_sym(nm, 3); se_assume((t >= 1) & (t <= (u64)K)); return t; }

ENTRY init() {
  World w;
  Inv v = inv(w);
  se_assert(v.all(), "the fresh cluster satisfies the invariant");
  se_reach("fresh");
  se_emit(v.all());
}
// safety follows from the invariant
ENTRY safety() {
  World w = anyWorld(cfgs(pick("cfg", 3)), 0);
  se_assume(inv(w).all());
  bool same = true, prefix = true;
  for (int a = 1; a <= M; a++)
    for (int b = 1; b <= M; b++)
      for (int k = 1; k <= N; k++) {
        same &= !((w.commit[a] >= (u64)k) & (w.commit[b] >= (u64)k)) | (w.log[a].e[k] == w.log[b].e[k]);
        prefix &= !((w.log[a].len >= (u64)k) & (w.log[b].len >= (u64)k) & (w.log[a].e[k] == w.log[b].e[k])) | has(w.log[a], w.log[b], k);
      }
  se_assert(same, "no two nodes commit different entries at a position");
  se_assert(prefix, "logs that agree on a position and term agree up to there");
  se_reach("agree");
  se_emit(same);
}
ENTRY app() {
  Me m;
  mk(m, 15);
  auto in = mkMsg(3, sender(), smallTerm("mterm"));
  u64 at = pick("at", m.len + 2);
  in->set_index(at);
  in->set_logterm(at ? smallTerm("mlogterm") : 0);
  u64 k = at >= N ? 0 : pick("nent", minu(3, N - at + 1));
  for (u64 i = 0; i < k; i++) { auto e = in->add_entries(); e->set_index(at + 1 + i); e->set_term(smallTerm("ment")); e->set_data(std::string(1, 'A')); }
  in->set_commit(se_sym("mcommit", 2));
  u64 c0 = m.w.commit[1];
  if (m.x.role == LEAD) progress(m, 0);
  go(m, in);
  auto l = m.r()->GetRaftLog();
  if (m.r()->Term() > in->term()) se_reach("stale");
  else if (!m.r()->Msgs().empty() && m.r()->Msgs().back()->reject()) se_reach("refused");
  else se_reach("matched");
  if (l->LastIndex() > (u64)m.len) se_reach("appended");
  if (l->LastIndex() < (u64)m.len) se_reach("truncated");
  if (l->Committed() > c0) se_reach("committed");
  after(m, in);
}
ENTRY heartbeat() {
  Me m;
  mk(m, 15);
  auto in = mkMsg(8, sender(), smallTerm("mterm"));
  u64 c = se_sym("mcommit", 2);
  // it was acknowledged, so it is there if the message is of the node's term or newer
  u64 ack = sel(m.w.acked[1], K, in->term());
  se_assume((c <= ack) & ((m.w.term[1] > in->term()) | (c <= (u64)m.len)));
  in->set_commit(c);
  u64 c0 = m.w.commit[1];
  if (m.x.role == LEAD) progress(m, 0);
  go(m, in);
  se_reach(m.r()->Term() > in->term() ? "stale" : m.r()->GetRaftLog()->Committed() > c0 ? "committed" : "follows");
  after(m, in);
}
ENTRY snapshot() {
  Me m;
  mk(m, 1 << FOL | 1 << CAND | 1 << PRE);
  auto in = mkMsg(7, sender(), smallTerm("mterm"));
  auto md = in->mutable_snapshot()->mutable_metadata();
  u64 at = 1 + pick("sindex", N);
  md->set_index(at);
  md->set_term(smallTerm("sterm"));
  *md->mutable_conf_state() = m.x.n.cfg.cs();
  u64 c0 = m.w.commit[1];
  go(m, in);
  auto l = m.r()->GetRaftLog();
  se_reach(l->HasPendingSnapshot() ? "restored" : l->Committed() > c0 ? "forwarded" : "ignored");
  after(m, in);
}
ENTRY vote() {
  Me m;
  mk(m, 15, true);
  auto in = mkMsg(5, sender(), smallTerm("mterm"));
  in->set_index(se_sym("mindex", 2));
  in->set_logterm(se_sym("mlogterm", 3));
  if (m.x.n.o.checkQuorum && pick("transfer", 2)) in->set_context("CampaignTransfer");
  if (m.x.role == LEAD) progress(m, 0);
  m.r()->SetElectionElapsed(m.x.n.o.checkQuorum && pick("quiet", 2) ? m.x.n.o.etick : 0);
  go(m, in);
  bool g = false;
  for (auto& o : m.r()->Msgs()) g |= o->type() == raftpb::MsgVoteResp && !o->reject();
  se_reach(g ? "granted" : "refused");
  after(m, in);
}
ENTRY prevote() {
  Me m;
  mk(m, 15, true);
  auto in = mkMsg(17, sender(), smallTerm("mterm"));
  in->set_index(se_sym("mindex", 2));
  in->set_logterm(se_sym("mlogterm", 3));
  if (m.x.role == LEAD) progress(m, 0);
  m.r()->SetElectionElapsed(m.x.n.o.checkQuorum && pick("quiet", 2) ? m.x.n.o.etick : 0);
  go(m, in);
  bool g = false;
  for (auto& o : m.r()->Msgs()) g |= o->type() == raftpb::MsgPreVoteResp && !o->reject();
  se_reach(g ? "granted" : "refused");
  after(m, in);
}
ENTRY voteresp() {
  Me m;
  mk(m, 15, false, true);
  bool pre = pick("pre", 2);
  auto in = mkMsg(pre ? 18 : 6, sender(), smallTerm("mterm"));
  in->set_reject(symB("rej"));
  if (m.x.role == LEAD) progress(m, 0);
  go(m, in);
  if (m.x.role == CAND) se_reach(m.r()->State() == kLeader ? "elected" : m.r()->State() == kCandidate ? "waits" : "lost");
  after(m, in);
}
ENTRY ack() {
  Me m;
  mk(m, 1 << LEAD);
  u64 from = sender();
  if (!m.x.n.cfg.member(from)) se_stop();
  progress(m, from);
  auto in = mkMsg(4, from, m.t0);
  bool rej = pick("rej", 2);
  in->set_reject(rej);
  in->set_index(pick("mindex", m.len + 1));
  if (rej) { in->set_rejecthint(pick("mhint", in->index() + 1)); in->set_logterm(se_sym("mlogterm", 3)); }
  u64 c0 = m.w.commit[1];
  go(m, in);
  se_reach(rej ? "reject" : m.r()->GetRaftLog()->Committed() > c0 ? "committed" : "waits");
  after(m, in);
}
ENTRY campaign() {
  Me m;
  mk(m, 1 << FOL | 1 << CAND | 1 << PRE, true);
  auto in = mkMsg(pick("forced", 2) ? 14 : 0, 1, 0);
  if (in->type() == raftpb::MsgTimeoutNow) { in->set_from(2); in->set_term(m.r()->Term()); }
  go(m, in, true);
  se_reach(m.r()->State() == kCandidate ? "candidate" : m.r()->State() == kPreCandidate ? "precandidate" : "none");
  after(m, in);
}
ENTRY other() {
  Me m;
  u64 k = pick("what", 9);
  mk(m, k < 2 ? 15 : 1 << LEAD);
  if (m.x.role == LEAD) progress(m, k >= 5 ? 2 : 0);
  MsgPtr in;
  u64 t = m.r()->Term();
  bool local = false;
  if (k == 0) { in = mkMsg(14, 2, smallTerm("mterm")); se_reach("timeoutnow"); }
  else if (k == 1) { in = mkMsg(16, 2, smallTerm("mterm")); in->set_index(se_sym("mindex", 2)); in->add_entries()->set_data("r"); se_reach("readresp"); }
  else if (k == 2) { in = mkMsg(2, 1, 0); in->add_entries()->set_data("p"); if (m.len == N) se_stop(); se_reach("proposal"); }
  else if (k == 3) { in = mkMsg(4, 2, smallTerm("mterm")); se_assume(in->term() > t); in->set_reject(symB("rej")); se_reach("stepdown"); }
  else if (k == 4) { in = mkMsg(9, 3, smallTerm("mterm")); }
  else if (k == 5) { in = mkMsg(9, 2, t); se_reach("hbresp"); }
  else if (k == 6) { in = mkMsg(1, 1, 0); local = true; se_reach("beat"); }
  else if (k == 7) { in = mkMsg(13, 2 + pick("target", 2), 0); se_reach("transfer"); }
  else { in = mkMsg(12, 1, 0); local = true; }
  go(m, in, local);
  after(m, in);
}
