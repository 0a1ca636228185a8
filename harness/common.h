// Shared by the harnesses: a logger, builders of arbitrary node states through
// the public API, arbitrary messages, and views used by the oracles.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "se.h"
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/raft.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "src/util.h"

using namespace craft;
typedef uint64_t u64;

#define ENTRY extern "C" void

// ---- what a fatal log line means -------------------------------------------
// The library reports a violated precondition by a kFatal log line and must not
// continue.  FATAL_STOP: the pre-state/message was outside the protocol, the
// path ends.  FATAL_BAD: it is a violation.
enum { FATAL_STOP, FATAL_BAD };
inline int g_fatal = FATAL_STOP;
inline void (*g_onFatal)() = nullptr;   // decides what is assumed at that point
struct HLogger : Logger {
  HLogger() : Logger(kDebug) {}
  void Log(LogLevel l, const char* f, ...) override {
    if (l == kFatal) {
      if (g_onFatal) g_onFatal();
      if (g_fatal == FATAL_BAD) se_fatal("fatal log line");
      se_stop();
    }
  }
  void Logv(LogLevel l, const char*, va_list) override {
    if (l == kFatal) {
      if (g_onFatal) g_onFatal();
      if (g_fatal == FATAL_BAD) se_fatal("fatal log line");
      se_stop();
    }
  }
};
inline std::shared_ptr<Logger> hlog() { return std::make_shared<HLogger>(); }

// ---- symbolic values ---------------------------------------------------------
// With the tape on, what is drawn is written down, or what was written down is drawn again:
// that is how a second node gets the very state and input of a first one.
struct Tape { int mode = 0; std::vector<u64> v; size_t at = 0; };
inline Tape g_tape;
inline void tapeRecord() { g_tape = Tape(); g_tape.mode = 1; }
inline void tapePlay(size_t at = 0) { g_tape.mode = 2; g_tape.at = at; }
inline void tapeOff() { g_tape.mode = 0; }
template <class F> inline u64 draw(F f) {
  if (g_tape.mode == 2) return g_tape.v[g_tape.at++];
  u64 v = f();
  if (g_tape.mode == 1) g_tape.v.push_back(v);
  return v;
}
inline u64 sym(const char* n) { return draw([&] { return se_sym(n, 64); }); }
inline u64 symLE(const char* n, u64 max) { u64 v = sym(n); se_assume(v <= max); return v; }
inline u64 symIn(const char* n, u64 lo, u64 hi) { u64 v = sym(n); se_assume((v >= lo) & (v <= hi)); return v; }
inline bool symB(const char* n) { return draw([&] { return se_sym(n, 1); }) != 0; }
inline u64 pick(const char* n, u64 k) { return draw([&] { return (u64)se_choose(n, k); }); }
inline u64 minu(u64 a, u64 b) { return a < b ? a : b; }
inline u64 maxu(u64 a, u64 b) { return a < b ? b : a; }
// branch-free helpers for oracles
inline bool b_and(bool a, bool b) { return a & b; }
inline bool b_or(bool a, bool b) { return a | b; }
inline bool implies(bool a, bool b) { return (!a) | b; }
constexpr u64 BIG = 1ull << 62;


// ---- configurations ----------------------------------------------------------
struct Cfg {
  std::vector<u64> v, o, l, ln;
  bool auto_leave = false;
  raftpb::ConfState cs() const {
    raftpb::ConfState c;
    for (u64 x : v) c.add_voters(x);
    for (u64 x : o) c.add_voters_outgoing(x);
    for (u64 x : l) c.add_learners(x);
    for (u64 x : ln) c.add_learners_next(x);
    c.set_auto_leave(auto_leave);
    return c;
  }
  static bool has(const std::vector<u64>& s, u64 x) { for (u64 y : s) if (y == x) return true; return false; }
  bool voter(u64 x) const { return has(v, x) || has(o, x); }
  bool member(u64 x) const { return voter(x) || has(l, x) || has(ln, x); }
  bool learner(u64 x) const { return member(x) && !voter(x); }
  std::set<u64> voters() const { std::set<u64> s(v.begin(), v.end()); s.insert(o.begin(), o.end()); return s; }
  std::set<u64> all() const { std::set<u64> s = voters(); s.insert(l.begin(), l.end()); s.insert(ln.begin(), ln.end()); return s; }
};
inline Cfg C3() { return Cfg{{1, 2, 3}, {}, {}, {}}; }
inline Cfg C1() { return Cfg{{1}, {}, {}, {}}; }
inline Cfg C2() { return Cfg{{1, 2}, {}, {}, {}}; }
inline Cfg C5() { return Cfg{{1, 2, 3, 4, 5}, {}, {}, {}}; }
inline Cfg C2L() { return Cfg{{1, 2}, {}, {3}, {}}; }
inline Cfg CJ() { return Cfg{{1, 2, 3}, {1, 4, 5}, {}, {}}; }
inline Cfg CJ2() { return Cfg{{1, 2}, {2, 3}, {}, {}}; }
inline Cfg CL() { return Cfg{{2, 3}, {}, {1}, {}}; }          // self is a learner
inline Cfg CN() { return Cfg{{2, 3, 4}, {}, {}, {}}; }        // self is no member
inline Cfg CJO() { return Cfg{{2, 3}, {1, 2, 3}, {}, {}}; }   // self leaves
inline Cfg CJLN() { return Cfg{{2, 3}, {1, 2, 3}, {}, {1}}; } // self becomes a learner

// branch-free: does the set `yes` contain a majority of s (a threshold network,
// no sums, which keeps the formulas boolean)
template <class F> inline bool atLeast(const std::vector<u64>& s, size_t need, F yes) {
  if (need == 0) return true;
  if (need > s.size()) return false;
  std::vector<char> t(need + 1, 0);
  t[0] = 1;
  for (u64 x : s) {
    bool y = yes(x);
    for (size_t k = need; k > 0; k--) t[k] = (char)((bool)t[k] | ((bool)t[k - 1] & y));
  }
  return t[need];
}
template <class F> inline bool majority(const std::vector<u64>& s, F yes) {
  return s.empty() ? true : atLeast(s, s.size() / 2 + 1, yes);
}
template <class F> inline bool quorum(const Cfg& c, F yes) { return majority(c.v, yes) & majority(c.o, yes); }

// ---- ghost view of a log -------------------------------------------------------
struct GEnt { u64 term; int type; char tag; u64 dlen; };
struct GLog {
  u64 base = 0, bterm = 0;
  std::vector<GEnt> e;
  u64 last() const { return base + e.size(); }
  u64 lastTerm() const { return e.empty() ? bterm : e.back().term; }
  // term at index i, branch-free; `ok` whether base <= i <= last
  u64 term(u64 i, bool* ok = nullptr) const {
    u64 t = bterm;
    bool in = i == base;
    for (size_t k = 0; k < e.size(); k++) {
      bool h = i == base + 1 + k;
      t = h ? e[k].term : t;
      in |= h;
    }
    if (ok) *ok = in;
    return t;
  }
};
// any index up to BIG; a case split on its position relative to the log keeps
// the arithmetic on it simple (below the base, base .. last + extra, beyond)
inline u64 symIdx(const char* n, const GLog& g, u64 extra = 1) {
  u64 len = g.e.size() + extra;
  u64 k = pick((std::string(n) + ".pos").c_str(), len + 3);
  if (k == len + 1) return symIn(n, g.base + len + 1, BIG + 64);
  if (k == len + 2) {
    u64 v = symLE(n, BIG);
    se_assume(v < g.base);
    return v;
  }
  return g.base + k;
}
inline EntryPtr mkEnt(u64 index, u64 term, char tag, int type = 0, u64 dlen = 1) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(index);
  e->set_term(term);
  if (type) e->set_type((raftpb::EntryType)type);
  if (dlen) e->set_data(std::string(dlen, tag));
  return e;
}

// ---- a node ----------------------------------------------------------------------
struct Opt {
  Cfg cfg = C3();
  u64 id = 1;
  int baseKind = -1;        // -1: choose among 0 and symbolic; 0: empty; 1: symbolic base >= 1
  int stable = -1, maxStable = 1;      // number of stable entries (-1: choose 0..max)
  int unstable = -1, maxUnstable = 1;
  bool preVote = false, checkQuorum = false;
  bool lease = false, noForward = false;
  u64 maxMsg = ~0ull, maxInflight = 4, maxUncommitted = 0, maxCommittedSize = ~0ull;
  u64 etick = 10, htick = 2;
  bool symCommit = true;    // committed anywhere in the log, otherwise = base
  bool applyAll = false;    // applied = committed (otherwise anything up to it)
  u64 termMax = BIG;
  int entType = 0;          // type of the log entries
  bool confAmong = false;   // an entry may be a configuration change
  bool committedStable = true;  // committed entries are in storage
  int pend = 0;             // 1: a snapshot waits to be installed (nothing stable); -1: choose
  std::shared_ptr<Storage> (*wrap)(std::shared_ptr<Storage>) = nullptr;   // what the node sees of its storage
};

struct Node {
  Opt o;
  Cfg cfg;
  GLog g;
  u64 term = 0, vote = 0, commit = 0, applied = 0;
  size_t nstable = 0;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<Raft> r;
  Raft::Config conf;
  bool pend = false;
  Raft* operator->() const { return r.get(); }
};

inline Raft::Config mkConf(const Opt& o, std::shared_ptr<Storage> st) {
  Raft::Config c;
  c.id = o.id;
  c.election_tick = o.etick;
  c.heartbeat_tick = o.htick;
  c.storage = st;
  c.max_size_per_msg = o.maxMsg;
  c.max_committed_size_per_ready = o.maxCommittedSize;
  c.max_uncommitted_entries_size = o.maxUncommitted;
  c.max_inflight_msgs = o.maxInflight;
  c.check_quorum = o.checkQuorum;
  c.pre_vote = o.preVote;
  c.read_only_option = o.lease ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
  c.disable_proposal_forwarding = o.noForward;
  c.logger = hlog();
  return c;
}

// Storage with an arbitrary log; terms are symbolic and do not decrease.
inline void mkLog(Node& n, const char* pfx = "") {
  Opt& o = n.o;
  auto nm = [&](const char* s) { return std::string(pfx) + s; };
  n.st = std::make_shared<MemoryStorage>(hlog());
  auto snap = std::make_shared<raftpb::Snapshot>();
  int bk = o.baseKind >= 0 ? o.baseKind : (int)pick(nm("basekind").c_str(), 2);
  if (bk) {
    n.g.base = symIn(nm("base").c_str(), 1, BIG);
    n.g.bterm = symIn(nm("bterm").c_str(), 1, o.termMax);
    snap->mutable_metadata()->set_index(n.g.base);
    snap->mutable_metadata()->set_term(n.g.bterm);
    *snap->mutable_metadata()->mutable_conf_state() = o.cfg.cs();
    n.st->ApplySnapshot(snap);
  }
  int ns = o.stable >= 0 ? o.stable : (int)pick(nm("nstable").c_str(), o.maxStable + 1);
  int nu = o.unstable >= 0 ? o.unstable : (int)pick(nm("nunstable").c_str(), o.maxUnstable + 1);
  u64 t = n.g.bterm;
  for (int i = 0; i < ns + nu; i++) {
    u64 x = symIn(nm("eterm").c_str(), 1, o.termMax);
    se_assume(x >= t);
    t = x;
    int ty = o.entType;
    if (o.confAmong && !ty) ty = (int)pick(nm("etype").c_str(), 3);
    n.g.e.push_back(GEnt{x, ty, (char)('a' + i), ty ? 0ull : 1ull});
  }
  n.nstable = ns;
}
inline EntryPtrs gEnts(const Node& n, size_t a, size_t b) {
  EntryPtrs es;
  for (size_t i = a; i < b; i++) es.push_back(mkEnt(n.g.base + 1 + i, n.g.e[i].term, n.g.e[i].tag, n.g.e[i].type, n.g.e[i].dlen));
  return es;
}

// A node just started from arbitrary persistent state (term, vote, commit, log),
// with some entries not yet persisted.
inline void mkNode(Node& n, const char* pfx = "") {
  auto nm = [&](const char* s) { return std::string(pfx) + s; };
  n.cfg = n.o.cfg;
  if (n.o.pend == 1 || (n.o.pend == -1 && pick(nm("pend").c_str(), 2))) {
    n.pend = true;
    n.o.baseKind = 0;
    n.o.stable = 0;
  }
  int nu0 = n.o.unstable;
  if (n.pend) n.o.unstable = 0;
  mkLog(n, pfx);
  if (n.pend) n.o.unstable = nu0;
  n.st->Append(gEnts(n, 0, n.nstable));
  n.term = symIn(nm("term").c_str(), n.g.base || !n.g.e.empty() ? 1 : 0, n.o.termMax);
  se_assume(n.term >= n.g.lastTerm());
  n.vote = symLE(nm("vote").c_str(), 6);
  se_assume((n.term != 0) | (n.vote == 0));
  u64 k = 0, ka = 0;
  u64 lim = n.o.committedStable ? n.nstable : n.g.e.size();
  if (n.o.symCommit) {
    k = pick(nm("commit").c_str(), lim + 1);
    ka = n.o.applyAll ? k : pick(nm("applied").c_str(), k + 1);
  }
  n.commit = n.g.base + k;
  n.applied = n.g.base + ka;
  raftpb::HardState hs;
  hs.set_term(n.term);
  hs.set_vote(n.vote);
  hs.set_commit(n.g.base + (k <= n.nstable ? k : n.nstable));
  n.st->SetHardState(hs);
  n.conf = mkConf(n.o, n.st);
  n.conf.applied = n.applied;
  if (n.applied > hs.commit()) n.conf.applied = 0;
  // with an empty storage the configuration cannot come from a snapshot
  if (!n.g.base) {
    struct S : MemoryStorage {
      raftpb::ConfState cs;
      using MemoryStorage::MemoryStorage;
      std::tuple<raftpb::HardState, raftpb::ConfState, Status> InitialState() const override {
        auto t = MemoryStorage::InitialState();
        return std::make_tuple(std::get<0>(t), cs, Status::OK());
      }
    };
    auto s = std::make_shared<S>(hlog());
    s->cs = n.o.cfg.cs();
    s->Append(gEnts(n, 0, n.nstable));
    s->SetHardState(hs);
    n.st = s;
    n.conf.storage = s;
  }
  if (n.o.wrap) n.conf.storage = n.o.wrap(n.conf.storage);
  n.r = Raft::New(n.conf);
  if (n.g.e.size() > n.nstable) n.r->GetRaftLog()->Append(gEnts(n, n.nstable, n.g.e.size()));
  n.r->GetRaftLog()->SetCommitted(n.commit);
  n.r->GetRaftLog()->SetApplied(n.applied);
  if (n.pend) {
    auto snap = std::make_shared<raftpb::Snapshot>();
    n.g.base = symIn(nm("base").c_str(), 1, BIG);
    n.g.bterm = symIn(nm("bterm").c_str(), 1, n.o.termMax);
    snap->mutable_metadata()->set_index(n.g.base);
    snap->mutable_metadata()->set_term(n.g.bterm);
    *snap->mutable_metadata()->mutable_conf_state() = n.o.cfg.cs();
    se_assume(n.term >= n.g.bterm);
    if (!n.r->Restore(snap)) se_stop();   // it would not wait for this one
    int nu = nu0 >= 0 ? nu0 : (int)pick(nm("nunstable").c_str(), n.o.maxUnstable + 1);
    u64 t = n.g.bterm;
    for (int i = 0; i < nu; i++) {
      u64 x = symIn(nm("eterm").c_str(), 1, n.o.termMax);
      se_assume((x >= t) & (x <= n.term));
      t = x;
      n.g.e.push_back(GEnt{x, 0, (char)('a' + i), 1});
    }
    if (nu) n.r->GetRaftLog()->Append(gEnts(n, 0, nu));
    n.nstable = 0;
    u64 k = n.o.symCommit ? pick(nm("commit").c_str(), nu + 1) : 0;
    n.commit = n.g.base + k;
    n.r->GetRaftLog()->SetCommitted(n.commit);
    n.r->ClearMsgs();
  }
}

inline void toFollower(Node& n, const char* pfx = "") {
  u64 lead = symLE((std::string(pfx) + "lead").c_str(), 4);
  se_assume((lead != n.o.id) & ((n.term != 0) | (lead == 0)));
  // whoever voted for somebody and then sees another leader keeps the vote
  n.r->BecomeFollower(n.term, lead);
}
// n.term must have been chosen; the node campaigns for it
inline void toCandidate(Node& n) {
  se_assume(n.term >= 1);
  se_assume(n.term > n.g.lastTerm());
  n.r->SetTerm(n.term - 1);
  n.r->BecomeCandidate();
  n.vote = n.o.id;
}
inline void toPreCandidate(Node& n) { n.r->BecomePreCandidate(); }
// has a quorum acknowledged position p
template <class F> inline bool ackedAt(const Cfg& c, u64 p, F match) { return quorum(c, [&](u64 y) { return match(y) >= p; }); }
// Leader with arbitrary progress.  Appends the empty entry of its term.
struct LeadOpt {
  int own = -1, maxOwn = 1;  // entries of the own term after the empty one
  bool symProgress = true;
  bool stableAll = false;
};
inline void toLeader(Node& n, LeadOpt lo = LeadOpt()) {
  toCandidate(n);
  n.r->BecomeLeader();
  n.g.e.push_back(GEnt{n.term, 0, 0, 0});
  int own = lo.own >= 0 ? lo.own : (int)pick("own", lo.maxOwn + 1);
  for (int i = 0; i < own; i++) {
    size_t k = n.g.e.size();
    n.g.e.push_back(GEnt{n.term, 0, (char)('a' + k), 1});
    n.r->AppendEntry(mkEnt(0, 0, (char)('a' + k)));
  }
}

enum { FOL, CAND, LEAD, PRE };
// some role; returns it
inline int anyRole(Node& n, int mask = 15, int own = -1) {
  int ks[4], c = 0;
  for (int i = 0; i < 4; i++) if (mask >> i & 1) ks[c++] = i;
  int k = ks[c == 1 ? 0 : pick("role", c)];
  // what is no voter is never anything but a follower, nor is a node with a snapshot to install
  if (n.pend || !n.cfg.voter(n.o.id)) se_assume(k == FOL);
  if (k == FOL) toFollower(n);
  else if (k == PRE) toPreCandidate(n);
  else if (k == CAND) toCandidate(n);
  else { LeadOpt lo; lo.own = own; toLeader(n, lo); }
  n.r->ClearMsgs();
  n.commit = n.r->GetRaftLog()->Committed();
  return k;
}

// What a leader knows about a peer, within the invariants of replication:
// match <= last, match < next <= last + 1, at most maxInflight open appends
// whose last entries ascend in [match + 1, next - 1].
struct PrOpt { bool states[3] = {true, true, true}; bool window = true; bool flags = true; };
struct PrView { u64 match, next, pending; int state; bool active, probeSent, paused, full; int64_t count; bool learner; };
inline PrView view(Raft* r, u64 id) {
  auto p = r->GetTracker().GetProgress(id);
  return PrView{p->Match(), p->Next(), p->PendingSnapshot(), (int)p->State(), p->RecentActive(), p->ProbeSent(), p->IsPaused(), p->GetInflights()->Full(), p->GetInflights()->Count(), p->IsLearner()};
}
enum { PROBE = (int)StateType::kProbe, REPL = (int)StateType::kReplicate, SNAP = (int)StateType::kSnapshot };
inline void symProgress(Node& n, u64 id, PrOpt po = PrOpt()) {
  std::string s = "p" + std::to_string(id) + ".";
  auto p = n.r->GetTracker().GetProgress(id);
  size_t len = n.g.e.size();
  // match: nothing, or a position of the log
  size_t mk = pick((s + "match").c_str(), len + 2);   // 0: nothing acknowledged
  if (n.g.base == 0 && mk == 1) se_stop();
  u64 match = mk == 0 ? 0 : n.g.base + (mk - 1);
  int st[3], c = 0;
  for (int i = 0; i < 3; i++) if (po.states[i]) st[c++] = i;
  int k = st[c == 1 ? 0 : pick((s + "state").c_str(), c)];
  u64 next;
  size_t lo = mk == 0 ? 0 : mk;    // smallest next as offset from base
  if (k == 0) {
    // probing: anywhere above match
    size_t no = lo + pick((s + "next").c_str(), len + 2 - lo);
    next = no == 0 ? (match + 1) : n.g.base + no;
    if (no == 0 && n.g.base == 0) se_stop();
    p->BecomeProbe();
    p->SetMatch(match);
    p->SetNext(next);
    if (po.flags) p->SetProbeSent(symB((s + "sent").c_str()));
  } else if (k == 1) {
    // replicating: what lies between match and next is in flight
    p->SetMatch(match);
    p->BecomeReplicate();
    if (mk != 0 || n.g.base == 0) {
      size_t first = mk == 0 ? 1 : mk;   // offset of match + 1
      size_t sent = pick((s + "sent").c_str(), len + 2 - first);
      for (size_t i = 0; i < sent && po.window; i++)
        if (p->GetInflights()->Count() < n.o.maxInflight && (i + 1 == sent || pick((s + "cut").c_str(), 2))) p->GetInflights()->Add(n.g.base + first + i);
      p->SetNext(n.g.base + first + sent);
    }
  } else {
    p->SetMatch(match);
    p->SetNext(match + 1);
    u64 ps = symLE((s + "pending").c_str(), BIG);
    se_assume((ps > match) & (ps <= n.g.last()));
    p->BecomeSnapshot(ps);
  }
  if (po.flags) p->SetRecentActive(symB((s + "active").c_str()));
}
// acknowledged anywhere (symbolic), and waiting for an answer so that nothing is sent to it
inline u64 quietProgress(Node& n, u64 id) {
  std::string s = "q" + std::to_string(id) + ".";
  auto p = n.r->GetTracker().GetProgress(id);
  u64 match = symIn((s + "match").c_str(), n.g.base, n.g.last());
  p->BecomeProbe();
  p->SetMatch(match);
  p->SetNext(match + 1);
  p->SetProbeSent(true);
  p->SetRecentActive(symB((s + "active").c_str()));
  return match;
}
// the peer of interest in any state, the others quiet
inline void symProgressFor(Node& n, u64 id, PrOpt po = PrOpt()) {
  for (u64 x : n.cfg.all()) if (x != n.o.id) { if (x == id) symProgress(n, x, po); else quietProgress(n, x); }
}
inline void symAllProgress(Node& n, PrOpt po = PrOpt()) {
  for (u64 id : n.cfg.all()) if (id != n.o.id) symProgress(n, id, po);
}

// ---- messages --------------------------------------------------------------------
inline MsgPtr mkMsg(int type, u64 from, u64 term) {
  auto m = std::make_shared<raftpb::Message>();
  m->set_type((raftpb::MessageType)type);
  m->set_from(from);
  m->set_to(1);
  m->set_term(term);
  return m;
}
inline u64 peer(const char* n, std::initializer_list<u64> ids) {
  u64 k = pick(n, ids.size());
  return *(ids.begin() + k);
}

// ---- observation -------------------------------------------------------------------
inline void emitLog(Raft* r) {
  craft::RaftLog* l = r->GetRaftLog();
  se_emit(l->FirstIndex());
  se_emit(l->LastIndex());
  se_emit(l->Committed());
  se_emit(l->Applied());
}
inline void emitMsg(const raftpb::Message& m) {
  se_emit(m.type()); se_emit(m.to()); se_emit(m.from()); se_emit(m.term()); se_emit(m.logterm());
  se_emit(m.index()); se_emit(m.commit()); se_emit(m.reject()); se_emit(m.rejecthint());
  se_emit(m.entries_size());
  for (int i = 0; i < m.entries_size(); i++) { se_emit(m.entries(i).term()); se_emit(m.entries(i).index()); se_emit(m.entries(i).data().size()); }
  se_emit(m.snapshot().metadata().index());
  se_emit(m.context().size());
}
inline void emitNode(Raft* r) {
  se_emit(r->Term()); se_emit(r->Vote()); se_emit(r->Lead()); se_emit(r->State());
  emitLog(r);
  se_emit(r->Msgs().size());
  for (auto& m : r->Msgs()) emitMsg(*m);
}
inline bool isErr(const Status& s, const char* what) { return !s.IsOK() && std::string(s.Str()) == what; }
// the node's log is exactly g (shape concrete, terms compared without branching)
inline bool sameEnt(const raftpb::Entry& e, u64 idx, const GEnt& g) {
  bool d = g.dlen ? (e.data().size() == g.dlen && e.data()[0] == g.tag) : e.data().empty();
  return d & (e.index() == idx) & (e.term() == g.term) & ((int)e.type() == g.type);
}
inline bool sameLog(Raft* r, const GLog& g) {
  auto es = r->GetRaftLog()->AllEntries();
  if (es.size() != g.e.size()) return false;
  bool ok = (r->GetRaftLog()->LastIndex() == g.last()) & (r->GetRaftLog()->FirstIndex() == g.base + 1);
  for (size_t i = 0; i < es.size(); i++) ok &= sameEnt(*es[i], g.base + 1 + i, g.e[i]);
  auto t = r->GetRaftLog()->Term(g.base);
  ok &= std::get<1>(t).IsOK() && std::get<0>(t) == g.bterm;
  return ok;
}
// everything about a node that outlives a message
struct Snapv {
  u64 term, vote, lead; int state; u64 commit, applied, last, first; int64_t elapsed; size_t msgs, reads; u64 pconf, xfer, usize;
  bool operator==(const Snapv& o) const {
    return (term == o.term) & (vote == o.vote) & (lead == o.lead) & (state == o.state) & (commit == o.commit) & (applied == o.applied) &
           (last == o.last) & (first == o.first) & (elapsed == o.elapsed) & (reads == o.reads) & (pconf == o.pconf) & (xfer == o.xfer) & (usize == o.usize);
  }
};
inline Snapv snapv(Raft* r) {
  auto l = r->GetRaftLog();
  return Snapv{r->Term(), r->Vote(), r->Lead(), (int)r->State(), l->Committed(), l->Applied(), l->LastIndex(), l->FirstIndex(), r->ElectionElapsed(),
               r->Msgs().size(), r->GetReadStates().size(), r->PendingConfIndex(), r->LeadTransferee(), r->UncommittedSize()};
}
// the log as the node itself reports it
inline u64 termAt(Raft* r, u64 i) { auto t = r->GetRaftLog()->Term(i); return std::get<1>(t).IsOK() ? std::get<0>(t) : 0; }

// ---- any message -------------------------------------------------------------------
constexpr int kNetTypes[] = {3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 18};
struct AnyOpt { int maxEnts = 1; u64 senders = 3; bool proto = true; u64 from = 0; };
// proto: what a correct peer could send (entry terms ascend and stay below the message's)
inline MsgPtr anyMsg(Node& n, int type, u64 term, AnyOpt ao = AnyOpt()) {
  u64 from = ao.from ? ao.from : 2 + pick("from", ao.senders);   // the last ones may be no members
  auto m = mkMsg(type, from, term);
  m->set_reject(symB("mreject"));
  if (type == 3) {
    m->set_index(symIdx("mindex", n.g));
    m->set_logterm(symLE("mlogterm", BIG));
    se_assume((m->index() == 0) == (m->logterm() == 0));
    u64 k = pick("nent", ao.maxEnts + 1), t = m->logterm();
    for (u64 i = 0; i < k; i++) {
      auto e = m->add_entries();
      e->set_index(m->index() + 1 + i);
      e->set_term(symIn("ment", 1, BIG));
      e->set_data(std::string(1, (char)('A' + i)));
      if (ao.proto) se_assume((e->term() >= t) & (e->term() <= term));
      t = e->term();
    }
    if (ao.proto) se_assume(m->logterm() <= term);
    m->set_commit(symLE("mcommit", BIG));
  } else if (type == 5 || type == 17 || type == 4) {
    m->set_index(symIdx("mindex", n.g));
    m->set_logterm(symLE("mlogterm", BIG));
    m->set_rejecthint(type == 4 ? symIdx("mhint", n.g) : symLE("mhint", BIG));
    if (type != 4 && symB("transfer")) m->set_context("CampaignTransfer");
    if (ao.proto && type == 4) se_assume((m->index() <= n.g.last()) & (m->rejecthint() <= n.g.last()));
  } else if (type == 8) {
    m->set_commit(symIdx("mcommit", n.g, 0));
    if (ao.proto) se_assume(m->commit() <= n.g.last());
  } else if (type == 7) {
    m->mutable_snapshot()->mutable_metadata()->set_index(symIdx("sindex", n.g));
    se_assume(m->snapshot().metadata().index() != 0);
    m->mutable_snapshot()->mutable_metadata()->set_term(symIn("sterm", 1, BIG));
    *m->mutable_snapshot()->mutable_metadata()->mutable_conf_state() = n.cfg.cs();
    if (ao.proto) se_assume(m->snapshot().metadata().term() <= term);
  } else if (type == 15 || type == 16) {
    m->add_entries()->set_data("c");
    m->set_index(symIdx("mindex", n.g));
  }
  return m;
}
// the log the node reports, entry by entry (index, term, type, first byte) from its first index on
struct LogShot { u64 first, last, commit, applied, bterm; std::vector<u64> term; std::vector<int> type; std::vector<std::string> data; };
inline LogShot shot(Raft* r) {
  auto l = r->GetRaftLog();
  LogShot s;
  s.first = l->FirstIndex(); s.last = l->LastIndex(); s.commit = l->Committed(); s.applied = l->Applied();
  s.bterm = termAt(r, s.first - 1);
  for (auto& e : l->AllEntries()) { s.term.push_back(e->term()); s.type.push_back((int)e->type()); s.data.push_back(e->data()); }
  return s;
}
