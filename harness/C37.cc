//@ bound every value of every configuration field (64 bits, tick counts below 2^31); storage with an arbitrary base and up to 2 (thorough: 3) entries, any stored term, vote and commit index, 5 memberships, any applied index
//@ entry validate reach=ok,refused
//@ entry start reach=started,refused,fresh,stale
//@ entry limits reach=ok
//@ entry idle reach=quiet,deliver,again
//@ entry broken reach=nostate
#include "ready.h"

#ifdef SE_THOROUGH
static const u64 MAXENT = 3;
#else
static const u64 MAXENT = 2;
#endif
struct Given { u64 id, etick, htick, applied, mm, mc, mu, mi; bool cq, pv, lease, nf, st; };
static Raft::Config anyConfig(Given& g) {
  Raft::Config c;
  g.id = sym("id"); g.etick = sym("etick"); g.htick = sym("htick"); g.applied = sym("applied");
  g.mm = sym("maxmsg"); g.mc = sym("maxcommitted"); g.mu = sym("maxuncommitted"); g.mi = sym("maxinflight");
  g.cq = symB("cq"); g.pv = symB("pv"); g.lease = symB("lease"); g.nf = symB("nf"); g.st = pick("storage", 2);
  c.id = g.id; c.election_tick = (int64_t)g.etick; c.heartbeat_tick = (int64_t)g.htick; c.applied = g.applied;
  c.max_size_per_msg = g.mm; c.max_committed_size_per_ready = g.mc; c.max_uncommitted_entries_size = g.mu; c.max_inflight_msgs = (int64_t)g.mi;
  c.check_quorum = g.cq; c.pre_vote = g.pv; c.disable_proposal_forwarding = g.nf;
  c.read_only_option = g.lease ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
  c.logger = hlog();
  return c;
}
static bool valid(const Given& g) {
  return (g.id != 0) & ((int64_t)g.htick > 0) & ((int64_t)g.etick > (int64_t)g.htick) & g.st & ((int64_t)g.mi > 0) & (!g.lease | g.cq);
}
ENTRY validate() {
  Given g;
  auto c = anyConfig(g);
  std::shared_ptr<Storage> st = std::make_shared<MemoryStorage>(hlog());
  if (g.st) c.storage = st;
  bool ok = c.Validate().IsOK();
  se_assert(ok == valid(g), "accepted iff it names a node, ticks are positive and elections slower than heartbeats, there is a storage and a window, and leases come with quorum checks");
  if (ok) {
    se_assert(c.max_uncommitted_entries_size == (g.mu ? g.mu : ~0ull), "no limit of the uncommitted size means none");
    se_assert(c.max_committed_size_per_ready == (g.mc ? g.mc : g.mm), "the size of a page is that of a message unless given");
    se_assert((c.id == g.id) & (c.election_tick == (int64_t)g.etick) & (c.heartbeat_tick == (int64_t)g.htick) & (c.applied == g.applied) & (c.max_size_per_msg == g.mm) &
                  (c.max_inflight_msgs == (int64_t)g.mi) & (c.check_quorum == g.cq) & (c.pre_vote == g.pv) & (c.disable_proposal_forwarding == g.nf) &
                  ((c.read_only_option == ReadOnly::kLeaseBased) == g.lease) & (c.storage == st),
              "everything else is kept");
    se_reach("ok");
  } else se_reach("refused");
  se_emit(ok);
}

static bool g_bad;
static void refusing() {
  se_assert(g_bad, "a start is refused only for an invalid configuration or an inconsistent state");
  se_reach("refused");
}
static Cfg member(u64 k) { return k == 0 ? C3() : k == 1 ? CJ2() : k == 2 ? C2L() : k == 3 ? CL() : CN(); }
struct Store : MemoryStorage {
  raftpb::ConfState cs;
  bool broken = false;
  using MemoryStorage::MemoryStorage;
  std::tuple<raftpb::HardState, raftpb::ConfState, Status> InitialState() const override {
    auto t = MemoryStorage::InitialState();
    if (broken) return std::make_tuple(raftpb::HardState(), raftpb::ConfState(), Status::Error("unreadable"));
    return std::make_tuple(std::get<0>(t), cs, Status::OK());
  }
};
struct Disk { Node n; std::shared_ptr<Store> s; u64 term, vote, commit; };
// a log of any length and place, and any hard state with it
static void mkDisk(Disk& d, const Cfg& cfg) {
  Node& n = d.n;
  n.o.cfg = cfg;
  n.o.unstable = 0;
  n.o.maxStable = MAXENT;
  mkLog(n);
  d.s = std::make_shared<Store>(hlog());
  d.s->cs = cfg.cs();
  if (n.g.base) {
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(n.g.base);
    snap->mutable_metadata()->set_term(n.g.bterm);
    *snap->mutable_metadata()->mutable_conf_state() = cfg.cs();
    d.s->ApplySnapshot(snap);
  }
  d.s->Append(gEnts(n, 0, n.nstable));
}
static void hard(Disk& d) {
  d.term = sym("term");
  d.vote = sym("vote");
  d.commit = sym("commit");
  raftpb::HardState hs;
  hs.set_term(d.term);
  hs.set_vote(d.vote);
  hs.set_commit(d.commit);
  d.s->SetHardState(hs);
}
ENTRY start() {
  u64 ck = pick("cfg", 5);
  Cfg cfg = member(ck);
  Disk d;
  mkDisk(d, cfg);
  hard(d);
  Given g;
  auto c = anyConfig(g);
  if (g.st) c.storage = d.s;
  se_assume(((int64_t)g.etick < (1ll << 31)));
  u64 base = d.n.g.base, last = d.n.g.last();
  bool fresh = (d.term == 0) & (d.vote == 0) & (d.commit == 0);
  u64 com = fresh ? base : d.commit;
  bool badHs = !fresh & ((d.commit < base) | (d.commit > last));
  bool badAp = (g.applied != 0) & ((g.applied < base) | (g.applied > com));
  g_bad = !valid(g) | badHs | badAp;
  g_fatal = FATAL_STOP;
  g_onFatal = refusing;
  auto r = Raft::New(c);
  se_assert(!g_bad, "nothing starts from an invalid configuration or an inconsistent state");
  auto l = r->GetRaftLog();
  se_assert((r->ID() == g.id) & (r->Term() == d.term) & (r->Vote() == d.vote), "it starts with the stored term and vote");
  se_assert((l->Committed() == com) & (l->Applied() == (g.applied ? g.applied : base)), "with what was committed and applied");
  se_assert((l->FirstIndex() == base + 1) & (l->LastIndex() == last) & (l->LastTerm() == d.n.g.lastTerm()) & l->UnstableEntries().empty(), "and the stored log");
  se_assert((r->State() == kFollower) & (r->Lead() == 0) & (r->LeadTransferee() == 0), "as a follower of nobody");
  se_assert((r->ElectionElapsed() == 0) & (r->ElectionTimeout() == (int64_t)g.etick) & (r->HeartbeatTimeout() == (int64_t)g.htick) &
                (r->RandomizedElectionTimeout() >= (int64_t)g.etick) & (r->RandomizedElectionTimeout() < 2 * (int64_t)g.etick),
            "waiting for an election timeout of its own");
  se_assert(r->Msgs().empty() && r->GetReadStates().empty(), "without a word");
  auto& t = r->GetTracker();
  se_assert(cfg.cs() == t.ConfState(), "in the stored membership");
  bool ok = t.GetProgressMap().size() == cfg.all().size();
  for (u64 x : cfg.all()) {
    auto p = t.GetProgress(x);
    ok &= p != nullptr;
    if (p) ok &= (p->IsLearner() == cfg.learner(x)) & (p->GetInflights()->Size() == (int64_t)g.mi) & (p->Next() == last + 1) & (p->Match() == (x == g.id ? last : 0));
  }
  se_assert(ok, "with a window of the given size for every member");
  se_reach("started");
  if (fresh) se_reach("fresh");
  else if (base) se_reach("stale");
  emitNode(r.get());
}
// the limits given are the ones in force
ENTRY limits() {
  Disk d;
  mkDisk(d, C1());
  Given g{};
  Opt o;
  o.maxUncommitted = sym("maxuncommitted");
  o.maxInflight = symIn("maxinflight", 1, BIG);
  auto c = mkConf(o, d.s);
  auto r = Raft::New(c);
  r->Step(mkMsg(0, 1, 0));
  se_assert(r->State() == kLeader, "alone, it leads");
  u64 last = r->GetRaftLog()->LastIndex();
  // the first proposal is always taken, the second one only within the limit
  for (int i = 0; i < 2; i++) {
    auto m = mkMsg(2, 1, 0);
    m->add_entries()->set_data("12345678");
    bool ok = r->Step(m).IsOK();
    bool want = (i == 0) | (o.maxUncommitted == 0) | (o.maxUncommitted >= 16);
    se_assert(ok == want, "proposals are refused exactly beyond the limit given");
  }
  se_assert(r->GetTracker().GetProgress(1)->GetInflights()->Size() == (int64_t)o.maxInflight, "the window is the given one");
  (void)last;
  se_reach("ok");
}
// what a node started from its storage reports first
ENTRY idle() {
  u64 ck = pick("cfg", 3);
  Disk d;
  mkDisk(d, member(ck));
  d.term = symIn("term", 1, BIG);
  d.vote = symLE("vote", 4);
  u64 base = d.n.g.base, len = d.n.g.e.size();
  u64 k = pick("commit", len + 1), a = pick("applied", k + 1);
  d.commit = base + k;
  se_assume(d.term >= d.n.g.lastTerm());
  raftpb::HardState hs;
  hs.set_term(d.term); hs.set_vote(d.vote); hs.set_commit(d.commit);
  d.s->SetHardState(hs);
  auto c = mkConf(Opt(), d.s);
  c.applied = base + a;
  auto rn = RawNode::New(c);
  bool todo = k > a;
  se_assert(rn->HasReady() == todo, "it has something to say iff something is committed and not applied");
  auto rd = rn->GetReady();
  se_assert(!rd->soft_state.has_value() && rd->entries.empty() && rd->messages.empty() && rd->read_states.empty() && IsEmptySnap(rd->snapshot), "nothing of it is new");
  se_assert((rd->hard_state.term() == 0) & (rd->hard_state.vote() == 0) & (rd->hard_state.commit() == 0), "no state is to be stored again");
  se_assert(!rd->must_sync, "nothing is to be synced");
  bool ok = rd->committed_entries.size() == k - a;
  for (size_t i = 0; ok && i < rd->committed_entries.size(); i++) ok &= (rd->committed_entries[i]->index() == base + a + 1 + i) & (rd->committed_entries[i]->term() == d.n.g.e[a + i].term);
  se_assert(ok, "exactly what was committed and not applied is delivered");
  if (todo) {
    rn->Advance();
    se_assert(!rn->HasReady(), "once");
    se_reach("deliver");
    c.applied = d.commit;
    auto rn2 = RawNode::New(c);
    se_assert(!rn2->HasReady(), "and not again when started with it applied");
    se_reach("again");
  } else se_reach("quiet");
}
// a storage that cannot tell its state
ENTRY broken() {
  Disk d;
  mkDisk(d, C3());
  d.s->broken = true;
  g_bad = true;
  g_fatal = FATAL_STOP;
  g_onFatal = [] { se_reach("nostate"); };
  auto c = mkConf(Opt(), d.s);
  auto r = Raft::New(c);
  se_assert(false, "nothing starts from a storage that cannot tell its state");
}
