//@ bound a node in any role with 6 configurations (simple, learners, joint with staged learners, outsider) and a log of at most 1 stored + 1 not yet stored entry after an arbitrary base; a leader with one peer in any replication state and any transfer target; then one event of any kind
//@ bound Status and Inflights values: 3 copies, moves or assignments among 3 objects in any state
//@ entry basic reach=leader,other,applied
//@ entry leader reach=progress,transfer,learner
//@ entry copies reach=kept
//@ entry visit reach=voter,learner
//@ entry values reach=error,ok
//@ entry quiet reach=ready,none
#include "leader.h"
#include "cfg.h"
#include "ready.h"

static Cfg family(u64 k) { return k == 0 ? C3() : k == 1 ? C2L() : k == 2 ? CJ() : k == 3 ? CJLN() : k == 4 ? CL() : C1(); }
static Abs absCfg(const Cfg& c) {
  Abs a;
  for (u64 x : c.v) a.in.insert(x);
  for (u64 x : c.o) a.out.insert(x);
  for (u64 x : c.l) a.learn.insert(x);
  for (u64 x : c.ln) a.next.insert(x);
  a.autol = c.auto_leave;
  return a;
}
static bool samePr(const PrView& a, const PrView& b) {
  return (a.match == b.match) & (a.next == b.next) & (a.pending == b.pending) & (a.state == b.state) & (a.active == b.active) & (a.probeSent == b.probeSent) & (a.paused == b.paused) & (a.full == b.full) & (a.count == b.count) & (a.learner == b.learner);
}
static PrView viewOf(const ProgressPtr& p) {
  return PrView{p->Match(), p->Next(), p->PendingSnapshot(), (int)p->State(), p->RecentActive(), p->ProbeSent(), p->IsPaused(), p->GetInflights()->Full(), p->GetInflights()->Count(), p->IsLearner()};
}
static void checkBasic(const NodeBasicStatus& b, Raft* r, u64 id) {
  bool ok = b.id == id;
  ok &= (b.hard_state.term() == r->Term()) & (b.hard_state.vote() == r->Vote()) & (b.hard_state.commit() == r->GetRaftLog()->Committed());
  ok &= b.applied == r->GetRaftLog()->Applied();
  se_assert(ok, "id, term, vote, commit and applied position are the node's");
  se_assert((b.soft_state.lead == r->Lead()) & (b.soft_state.raft_state == r->State()), "so are role and leader");
  se_assert(b.lead_transferee == r->LeadTransferee(), "and the transfer target");
}

ENTRY basic() {
  RN x;
  x.n.o.cfg = family(pick("cfg", 6));
  x.n.o.preVote = symB("pv");
  mkNode(x.n);
  u64 t0 = x.n.term;
  x.role = anyRole(x.n, 15, -1);
  u64 commit = x.n.commit, applied = x.n.r->GetRaftLog()->Applied();
  wrap(x);
  auto s = x.rn->GetStatus();
  auto b = x.rn->GetBasicStatus();
  checkBasic(s.basic, x.r(), 1);
  checkBasic(b, x.r(), 1);
  // and what the node is was chosen here
  se_assert((b.hard_state.commit() == commit) & (b.applied == applied) & (b.hard_state.term() == x.r()->Term()), "the state is what the node was brought to");
  if (x.role == FOL) se_assert(b.hard_state.term() == t0, "a follower's term");
  se_assert(b.soft_state.raft_state == (x.role == FOL ? kFollower : x.role == CAND ? kCandidate : x.role == PRE ? kPreCandidate : kLeader), "the role");
  se_assert(absOf(s.config) == absCfg(x.n.cfg), "the configuration is the node's");
  if (x.role == LEAD) se_reach("leader");
  else { se_assert(s.progress.empty(), "only a leader reports progress"); se_reach("other"); }
  if (applied != x.n.g.base) se_reach("applied");
  emitNode(x.r());
}
ENTRY leader() {
  Lead l;
  LeadCfg c;
  c.cfg = family(pick("cfg", 4));
  c.peer = 2;
  c.consistent = false;
  mkLead(l, c);
  RN x;
  x.n = std::move(l.n);
  wrap(x);
  u64 tg = pick("transfer", 3);
  if (tg) x.rn->TransferLeader(1 + tg);
  if (x.r()->LeadTransferee()) se_reach("transfer");
  auto s = x.rn->GetStatus();
  checkBasic(s.basic, x.r(), 1);
  std::set<u64> want = x.n.cfg.all(), have;
  bool ok = true, role = true;
  for (auto& p : s.progress) {
    have.insert(p.first);
    auto q = x.r()->GetTracker().GetProgress(p.first);
    ok &= q != nullptr && samePr(viewOf(p.second), viewOf(q));
    bool ln = false;
    for (u64 y : x.n.cfg.l) ln |= y == p.first;
    role &= p.second->IsLearner() == ln;
    if (ln) se_reach("learner");
  }
  se_assert(have == want, "a leader reports every member's progress");
  se_assert(ok, "as it is");
  se_assert(role, "in its role");
  se_reach("progress");
  emitNode(x.r());
}
// changing what was returned changes nothing in the node, and the other way round
ENTRY copies() {
  Lead l;
  LeadCfg c;
  c.cfg = family(pick("cfg", 3));
  c.peer = 2;
  c.consistent = false;
  mkLead(l, c);
  RN x;
  x.n = std::move(l.n);
  wrap(x);
  Raft* r = x.r();
  std::map<u64, PrView> before;
  for (u64 id : x.n.cfg.all()) before.emplace(id, view(r, id));
  auto s = x.rn->GetStatus();
  Abs cfg = absOf(r->GetTracker().GetConfig());
  std::map<u64, ProgressPtr> seen;
  x.rn->WithProgress([&](uint64_t id, ProgressType, ProgressPtr p) { seen[id] = p; });
  auto spoil = [](ProgressPtr p) { p->SetMatch(p->Match() + 7); p->SetNext(p->Next() + 9); p->SetRecentActive(!p->RecentActive()); p->SetProbeSent(!p->ProbeSent()); p->SetIsLearner(!p->IsLearner()); p->SetPendingSnapshot(5); p->GetInflights()->Reset(); p->GetInflights()->Add(3); p->SetState(StateType::kSnapshot); };
  bool which = pick("spoil", 2);
  if (which) {
    for (auto& p : s.progress) spoil(p.second);
    for (auto& p : seen) spoil(p.second);
    s.config.voters = JointConfig({8, 9}, {});
    s.config.learners.clear();
    s.config.learners_next.clear();
    s.progress.clear();
    bool ok = true;
    for (auto& b : before) ok &= samePr(b.second, view(r, b.first));
    se_assert(ok & (absOf(r->GetTracker().GetConfig()) == cfg), "changing a status changes nothing in the node");
  } else {
    // the node goes on
    LArg a;
    a.from = 2;
    Lead l2;
    u64 ev = pick("ev", 3);
    if (ev == 0) { auto m = mkMsg(4, 2, r->Term()); m->set_index(r->GetRaftLog()->LastIndex()); x.rn->Step(m); }
    else if (ev == 1) { x.rn->Propose("p"); for (u64 id : x.n.cfg.all()) if (id != 1) x.rn->ReportUnreachable(id); }
    else { raftpb::ConfChangeV2 cc; if (x.n.cfg.o.empty()) { auto k = cc.add_changes(); k->set_type(raftpb::ConfChangeRemoveNode); k->set_node_id(2); } x.rn->ApplyConfChange(ConfChangeI(std::move(cc))); }
    bool ok = s.progress.size() == before.size() && seen.size() == before.size();
    if (ok) for (auto& b : before) { ok &= samePr(b.second, viewOf(s.progress[b.first])); ok &= samePr(b.second, viewOf(seen[b.first])); }
    se_assert(ok & (absOf(s.config) == cfg), "what happens later does not change a status");
  }
  se_reach("kept");
  emitNode(r);
}
ENTRY visit() {
  RN x;
  x.n.o.cfg = family(pick("cfg", 6));
  mkNode(x.n);
  x.role = anyRole(x.n, 15, 0);
  if (x.role == LEAD) symProgressFor(x.n, 2);
  wrap(x);
  std::set<u64> seen;
  bool once = true, role = true, same = true;
  x.rn->WithProgress([&](uint64_t id, ProgressType t, ProgressPtr p) {
    once &= seen.insert(id).second;
    bool ln = false;
    for (u64 y : x.n.cfg.l) ln |= y == id;
    role &= (t == ProgressType::kLearner) == ln;
    same &= samePr(viewOf(p), view(x.r(), id));
    se_reach(ln ? "learner" : "voter");
  });
  se_assert(once & (seen == x.n.cfg.all()), "every member is visited once");
  se_assert(role, "in its role");
  se_assert(same, "with its progress");
  se_emit(seen.size());
}
// asking changes nothing: the next ready is the same
ENTRY quiet() {
  RN x;
  x.n.o.cfg = pick("cfg", 2) ? C1() : C3();
  x.n.o.pend = -1;
  mkNode(x.n);
  x.role = anyRole(x.n, 15, 0);
  wrap(x);
  rnEvent(x, (int)pick("ev", R_N), "a.");
  auto had = x.rn->HasReady();
  auto a = x.rn->ReadyWithoutAccept();
  auto h = x.r()->GetHardState();
  x.rn->GetStatus();
  x.rn->GetBasicStatus();
  x.rn->WithProgress([](uint64_t, ProgressType, ProgressPtr) {});
  auto b = x.rn->ReadyWithoutAccept();
  bool ok = had == x.rn->HasReady();
  ok &= a->messages.size() == b->messages.size() && a->entries.size() == b->entries.size() && a->committed_entries.size() == b->committed_entries.size() && a->read_states.size() == b->read_states.size();
  ok &= sameHard(h, x.r()->GetHardState()) & sameHard(a->hard_state, b->hard_state) & (a->must_sync == b->must_sync) & (a->soft_state.has_value() == b->soft_state.has_value());
  ok &= a->snapshot->metadata().index() == b->snapshot->metadata().index();
  for (size_t i = 0; ok && i < a->messages.size(); i++) ok &= a->messages[i] == b->messages[i];
  for (size_t i = 0; ok && i < a->entries.size(); i++) ok &= sameEntry(*a->entries[i], *b->entries[i]);
  se_assert(ok, "asking for the status or looking at the next ready changes nothing");
  se_reach(had ? "ready" : "none");
  emitNode(x.r());
}
// results are values: copying, moving and assigning keeps each object's own content
ENTRY values() {
  int v[3] = {0, 0, 0};      // 0 ok, else which error; -1 unspecified
  Status s[3];
  for (int i = 0; i < 3; i++) { v[i] = (int)pick("init", 3); s[i] = v[i] == 0 ? Status::OK() : v[i] == 1 ? Status::Error("one") : Status::Error("n=%d", 2); }
  auto ok = [&](int i) { return v[i] < 0 || (s[i].IsOK() == (v[i] == 0) && std::strcmp(s[i].Str(), v[i] == 0 ? "OK" : v[i] == 1 ? "one" : "n=2") == 0); };
  for (int k = 0; k < 3; k++) {
    int a = (int)pick("to", 3), b = (int)pick("of", 3);
    u64 how = pick("how", 3);
    if (how == 0) { s[a] = s[b]; v[a] = v[b]; }
    else if (how == 1) { if (a == b) se_stop(); s[a] = std::move(s[b]); v[a] = v[b]; v[b] = -1; }
    else { Status c(s[b]); Status d(std::move(c)); s[a] = d; v[a] = v[b]; }
    for (int i = 0; i < 3; i++) se_assert(ok(i), "each result keeps what it was given");
    if (v[a] > 0) se_reach("error"); else se_reach("ok");
  }
  se_emit(v[0] + 1);
}
