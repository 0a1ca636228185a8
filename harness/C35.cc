//@ bound two calls of a storage with at most 2 entries after an arbitrary base, one of them at every point where the other one takes a lock, in every order, arbitrary arguments
//@ bound a node whose storage is compacted (with a snapshot), appended to or told a hard state by the application before any one of the storage calls of a step; leader with one peer in any replication state, follower with one message; at most 2 stored + 2 not yet stored entries after an arbitrary base
//@ assume the application compacts no further than it has applied and stores what it was handed; requests beyond the log's end are fatal preconditions
//@ entry pairs reach=inside,after,same
//@ entry races reach=checked
//@ entry leader reach=append,snapshot,compacted
//@ entry follower reach=kept,moved
//@ entry view reach=all,entries,next,ready
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include "leader.h"
#ifdef SE_TSAN
#include <atomic>
#include <thread>
#endif

// ---- locks: what they do to each other, and where the other thread may run ----------
extern "C" char __libc_single_threaded;
static int g_held = 0;              // of the storage's lock: readers, -1 a writer
static int g_in = 0;                // inside a call
static int g_gap = 0;               // before which acquisition the other call happens
static void (*g_other)() = nullptr;
static bool g_ran = false;
#ifndef SE_TSAN
static void acquire(void* l, bool excl) {
  if (!g_in) return;
  if (g_in == 1 && g_gap > 0 && --g_gap == 0) {
    if (g_held) se_fatal("the lock is taken twice");
    g_in = 2;
    se_thread(2);
    g_ran = true;
    g_other();
    se_assert(g_held == 0, "a call gives the lock back");
    se_thread(1);
    g_in = 1;
  }
  if (g_held) se_fatal("the lock is taken twice");
  g_held = excl ? -1 : 1;
  se_sync((unsigned long)l, excl ? 2 : 1);
}
static void release(void* l) {
  if (!g_in) return;
  if (!g_held) se_fatal("a lock that is not held is given back");
  se_sync((unsigned long)l, g_held < 0 ? 4 : 3);
  g_held = 0;
}
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { acquire(l, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { acquire(l, true); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { release(l); return 0; }
#ifdef __clang__
int pthread_mutex_lock(pthread_mutex_t* l) noexcept { acquire(l, true); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* l) noexcept { release(l); return 0; }
#else
// natively, locks taken outside the calls are other people's
int pthread_mutex_lock(pthread_mutex_t* l) noexcept {
  if (g_in) { acquire(l, true); return 0; }
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(l);
}
int pthread_mutex_unlock(pthread_mutex_t* l) noexcept {
  if (g_in) { release(l); return 0; }
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  return real(l);
}
#endif
}
#endif

// ---- calls ----------------------------------------------------------------------------
typedef std::vector<u64> Res;
static Res& operator<<(Res& r, u64 v) { r.push_back(v); return r; }
static void put(Res& r, const Status& s) { r << (u64)s.IsOK() << (u64)(s.IsOK() ? 0 : s.Str()[15]); }
static void put(Res& r, const SnapshotPtr& p) {
  r << (u64)(p != nullptr);
  if (!p) return;
  r << p->metadata().index() << p->metadata().term() << (u64)p->metadata().conf_state().voters_size() << (u64)p->data().size();
}
static void put(Res& r, const EntryPtrs& es) {
  r << es.size();
  for (auto& e : es) r << e->index() << e->term() << (u64)e->data().size() << (u64)(unsigned char)(e->data().empty() ? 0 : e->data()[0]);
}
struct Call { int op = 0; u64 a = 0, b = 0, c = 0, d = 0; };
enum { ENTRIES, TERM, LASTI, FIRSTI, GETSNAP, INITIAL, HARD, APPEND, COMPACT, CREATE, APPLY, NCALL };
static bool writes(int op) { return op >= HARD; }
static Res run(MemoryStorage& m, const Call& c) {
  Res r;
  switch (c.op) {
    case ENTRIES: { auto [es, s] = m.Entries(c.a, c.b, c.c); put(r, s); put(r, es); break; }
    case TERM: { auto [t, s] = m.Term(c.a); put(r, s); r << t; break; }
    case LASTI: { auto [t, s] = m.LastIndex(); put(r, s); r << t; break; }
    case FIRSTI: { auto [t, s] = m.FirstIndex(); put(r, s); r << t; break; }
    case GETSNAP: { auto [p, s] = m.SnapShot(); put(r, s); put(r, p); break; }
    case INITIAL: { auto [h, cs, s] = m.InitialState(); put(r, s); r << h.term() << h.vote() << h.commit() << (u64)cs.voters_size(); break; }
    case HARD: { raftpb::HardState h; h.set_term(c.a); h.set_vote(c.b); h.set_commit(c.c); put(r, m.SetHardState(h)); break; }
    case APPEND: { EntryPtrs es; for (u64 i = 0; i < c.d; i++) es.push_back(mkEnt(c.a + i, c.b, (char)('p' + i))); put(r, m.Append(es)); break; }
    case COMPACT: put(r, m.Compact(c.a)); break;
    case CREATE: { raftpb::ConfState cs; for (u64 i = 0; i < c.d; i++) cs.add_voters(i + 1); auto [p, s] = m.CreateSnapshot(c.a, &cs, "cs"); put(r, s); put(r, p); break; }
    default: {
      auto p = std::make_shared<raftpb::Snapshot>();
      p->mutable_metadata()->set_index(c.a);
      p->mutable_metadata()->set_term(c.b);
      p->mutable_metadata()->mutable_conf_state()->add_voters(1);
      put(r, m.ApplySnapshot(p));
    }
  }
  return r;
}
// everything a storage has to say
static Res all(MemoryStorage& m) {
  Res r;
  u64 first = std::get<0>(m.FirstIndex()), last = std::get<0>(m.LastIndex());
  r << first << last;
  r << std::get<0>(m.Term(first - 1));
  size_t n = se_concretize(last + 1 - first);
  if (n) put(r, std::get<0>(m.Entries(first, last + 1, ~0ull)));
  put(r, std::get<0>(m.SnapShot()));
  auto [h, cs, s] = m.InitialState();
  r << h.term() << h.vote() << h.commit();
  return r;
}
static bool same(const Res& a, const Res& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
  return ok;
}
struct Start { u64 base = 0, bterm = 0, n = 0, t[2] = {0, 0}; };
static std::shared_ptr<MemoryStorage> mk(const Start& s) {
  auto m = std::make_shared<MemoryStorage>(hlog());
  if (s.base) {
    Call c;
    c.op = APPLY; c.a = s.base; c.b = s.bterm;
    run(*m, c);
  }
  EntryPtrs es;
  for (u64 i = 0; i < s.n; i++) es.push_back(mkEnt(s.base + 1 + i, s.t[i], (char)('a' + i)));
  m->Append(es);
  return m;
}
static Start anyStart() {
  Start s;
  s.base = symIn("base", 1, BIG);
  s.bterm = symIn("bterm", 1, BIG);
  s.n = 1 + pick("n", 2);
  for (u64 i = 0; i < s.n; i++) s.t[i] = symIn("t", 1, BIG);
  return s;
}
static Call anyCall(const Start& s, const char* nm, int op) {
  std::string p = nm;
  Call c;
  c.op = op;
  auto at = [&](const char* k, u64 lo, u64 hi) { return s.base + lo + pick((p + k).c_str(), hi - lo + 1); };
  switch (op) {
    case ENTRIES: c.a = at("lo", 0, s.n); c.b = s.base + s.n + 1; c.c = pick((p + "limit").c_str(), 2) ? ~0ull : 0; break;
    case TERM: c.a = at("i", 0, s.n + 1); break;
    case HARD: c.a = sym((p + "term").c_str()); c.b = sym((p + "vote").c_str()); c.c = sym((p + "commit").c_str()); break;
    case APPEND: c.a = at("at", 1, s.n + 1); c.b = symIn((p + "eterm").c_str(), 1, BIG); c.d = 1 + pick((p + "count").c_str(), 2); break;
    case COMPACT: c.a = at("to", 1, s.n); break;
    case CREATE: c.a = at("of", 1, s.n); c.d = 2; break;
    case APPLY: c.a = symIn((p + "snap").c_str(), s.base + 1, BIG + 8); c.b = symIn((p + "sterm").c_str(), 1, BIG); break;
  }
  return c;
}

static MemoryStorage* g_m;
static Call g_call;
static Res g_res;
static void other() { g_res = run(*g_m, g_call); }

// ---- one call takes effect at one moment of the other ----------------------------------
ENTRY pairs() {
  __libc_single_threaded = 0;
  Start s = anyStart();
  int opa = (int)pick("opa", NCALL), opb = (int)pick("opb", NCALL);
  if (!writes(opa) && !writes(opb)) se_stop();
  Call a = anyCall(s, "a.", opa), b = anyCall(s, "b.", opb);
  // one after the other, both ways (what is fatal then is no case)
  auto x = mk(s), y = mk(s);
  Res xa = run(*x, a), xb = run(*x, b), yb = run(*y, b), ya = run(*y, a);
  Res xe = all(*x), ye = all(*y);
  g_fatal = FATAL_BAD;
  auto m = mk(s);
  int gap = 1 + (int)pick("gap", 3);
  g_m = m.get();
  g_call = b;
  g_other = other;
  g_ran = false;
  g_gap = gap;
  g_in = 1;
  Res ra = run(*m, a);
  se_assert(g_held == 0, "a call gives the lock back");
  g_in = 0;
  if (!g_ran) {   // the call takes no lock that often
    se_reach("after");
    se_stop();
  }
  Res e = all(*m);
  bool ab = same(ra, xa) & same(g_res, xb) & same(e, xe), ba = same(ra, ya) & same(g_res, yb) & same(e, ye);
  se_assert(ab | ba, "two calls at once have the effect of one after the other");
  se_reach("inside");
  if (ab & ba) se_reach("same");
  se_emit(ab);
  se_emit(ba);
  for (u64 v : ra) se_emit(v);
  for (u64 v : g_res) se_emit(v);
}

// ---- no data races ---------------------------------------------------------------------
ENTRY races() {
  __libc_single_threaded = 0;
  Start s = anyStart();
  int opa = (int)pick("opa", NCALL), opb = (int)pick("opb", NCALL);
  if (!writes(opa) && !writes(opb)) se_stop();
  Call a = anyCall(s, "a.", opa), b = anyCall(s, "b.", opb);
  auto m = mk(s);
  g_m = m.get();
  g_call = b;
#ifdef SE_TSAN
  Res r;
  std::atomic<int> done{0};
  std::thread t1([&] { r = run(*m, a); done.store(1, std::memory_order_relaxed); while (done.load(std::memory_order_relaxed) < 2) usleep(1000); });
  std::thread t2([&] { while (!done.load(std::memory_order_relaxed)) usleep(1000); other(); done.store(2, std::memory_order_relaxed); });
  t1.join();
  t2.join();
#else
  g_in = 1;
  se_thread(1);
  run(*m, a);
  g_in = 2;
  se_thread(2);
  other();
  se_thread(0);
  g_in = 0;
#endif
  se_reach("checked");
}

// ---- a node whose storage changes under it ------------------------------------------------
struct Racing : Storage {
  std::shared_ptr<Storage> m;
  int left = 0;
  bool ran = false;
  std::function<void()> app;
  void tick() { if (left > 0 && --left == 0) { ran = true; app(); } }
  std::tuple<raftpb::HardState, raftpb::ConfState, Status> InitialState() const override { return m->InitialState(); }
  std::tuple<EntryPtrs, Status> Entries(u64 lo, u64 hi, u64 max) override { tick(); return m->Entries(lo, hi, max); }
  std::tuple<u64, Status> Term(u64 i) override { tick(); return m->Term(i); }
  std::tuple<u64, Status> LastIndex() override { tick(); return m->LastIndex(); }
  std::tuple<u64, Status> FirstIndex() override { tick(); return m->FirstIndex(); }
  std::tuple<SnapshotPtr, Status> SnapShot() override { tick(); return m->SnapShot(); }
};
static std::shared_ptr<Racing> g_racing;
static std::shared_ptr<Storage> wrap(std::shared_ptr<Storage> s) {
  g_racing = std::make_shared<Racing>();
  g_racing->m = s;
  return g_racing;
}
#ifdef SE_THOROUGH
static const int GAPS = 16, ST = 3;
#else
static const int GAPS = 8, ST = 2;
#endif
ENTRY leader() {
  Lead x;
  LeadCfg c;
  x.n.o.wrap = wrap;
  c.stable = ST;
  c.own = 0;
  c.po.window = false;
  mkLead(x, c);
  Node& n = x.n;
  if (n.applied == n.g.base) se_stop();
  u64 k = se_concretize(n.applied - n.g.base);
  u64 ci = n.g.base + 1 + pick("create", k), cc = n.g.base + pick("compact", se_concretize(ci - n.g.base) + 1);
  g_racing->app = [&] {
    raftpb::ConfState cs = n.cfg.cs();
    n.st->CreateSnapshot(ci, &cs, "S");
    if (cc > n.g.base) n.st->Compact(cc);
  };
  static const int evs[] = {E_ACK, E_REJ, E_HB, E_PROP, E_XFER};
  int ev = evs[pick("event", 5)];
  g_racing->left = 1 + (int)pick("gap", GAPS);
  g_fatal = FATAL_BAD;
  LArg a;
  leadEvent(x, ev, a);
  if (!g_racing->ran) se_stop();
  g_racing->left = 0;
  g_racing->ran = false;
  Raft* r = n.r.get();
  bool cut = false;
  for (auto& m : r->Msgs()) {
    if ((int)m->type() == 7) {
      auto& md = m->snapshot().metadata();
      bool old = md.index() == n.g.base, now = md.index() == ci;
      se_assert((old | now) & (md.term() == n.g.term(md.index())), "a snapshot sent is the storage's, old or new");
      cut |= now;
      se_reach("snapshot");
    } else if ((int)m->type() == 3) {
      bool in = false;
      u64 t = n.g.term(m->index(), &in);
      se_assert(in & (m->logterm() == t), "the previous position has the stated term");
      bool ok = true;
      for (int i = 0; i < m->entries_size(); i++) {
        bool hit = false;
        for (size_t j = 0; j < n.g.e.size(); j++) hit |= (m->index() + 1 + i == n.g.base + 1 + j) & sameEnt(m->entries(i), n.g.base + 1 + j, n.g.e[j]);
        ok &= hit;
      }
      se_assert(ok & (m->commit() == r->GetRaftLog()->Committed()), "entries sent are the log's that follow");
      se_reach("append");
    }
  }
  auto l = r->GetRaftLog();
  se_assert((l->FirstIndex() == cc + 1) & (l->LastIndex() == n.g.last()), "the log starts after what was compacted and ends where it did");
  bool ok = true;
  for (auto& e : l->AllEntries()) {
    bool hit = false;
    for (size_t j = 0; j < n.g.e.size(); j++) hit |= (e->index() == n.g.base + 1 + j) & sameEnt(*e, n.g.base + 1 + j, n.g.e[j]);
    ok &= hit;
  }
  se_assert(ok, "and holds the same entries");
  if (cc > n.g.base) se_reach("compacted");
  emitNode(r);
}

// the same message to the same follower, with the application at work before, within or after
struct FStart { u64 base, bterm, term, vote, lead; int ns, nu, k, ka; u64 t[4]; };
static void mkFol(const FStart& f, Node& n) {
  n.st = std::make_shared<MemoryStorage>(hlog());
  auto sp = std::make_shared<raftpb::Snapshot>();
  sp->mutable_metadata()->set_index(f.base);
  sp->mutable_metadata()->set_term(f.bterm);
  *sp->mutable_metadata()->mutable_conf_state() = C3().cs();
  n.st->ApplySnapshot(sp);
  n.cfg = C3();
  n.g = GLog();
  n.g.base = f.base;
  n.g.bterm = f.bterm;
  for (int i = 0; i < f.ns + f.nu; i++) n.g.e.push_back(GEnt{f.t[i], 0, (char)('a' + i), 1});
  n.st->Append(gEnts(n, 0, f.ns));
  raftpb::HardState hs;
  hs.set_term(f.term);
  hs.set_vote(f.vote);
  hs.set_commit(f.base + f.k);
  n.st->SetHardState(hs);
  n.conf = mkConf(n.o, n.st);
  n.conf.applied = f.base + f.ka;
  n.conf.storage = wrap(n.st);
  n.r = Raft::New(n.conf);
  if (f.nu) n.r->GetRaftLog()->Append(gEnts(n, f.ns, f.ns + f.nu));
  n.r->BecomeFollower(f.term, f.lead);
}
static Res seen(Node& n) {
  Raft* r = n.r.get();
  Res v;
  v << r->Term() << r->Vote() << r->Lead() << (u64)r->State();
  auto l = r->GetRaftLog();
  v << l->FirstIndex() << l->LastIndex() << l->Committed() << l->Applied() << termAt(r, l->FirstIndex() - 1);
  put(v, l->AllEntries());
  put(v, l->UnstableEntries());
  put(v, l->NextEnts());
  v << r->Msgs().size();
  for (auto& m : r->Msgs()) {
    v << (u64)m->type() << m->to() << m->term() << m->index() << m->logterm() << m->commit() << (u64)m->reject() << m->rejecthint();
  }
  return v;
}
ENTRY follower() {
  FStart f;
  f.base = symIn("base", 1, BIG);
  f.bterm = symIn("bterm", 1, BIG);
  f.ns = (int)pick("nstable", 3);
  f.nu = (int)pick("nunstable", 2);
  u64 t = f.bterm;
  for (int i = 0; i < f.ns + f.nu; i++) { f.t[i] = symIn("eterm", t, BIG); t = f.t[i]; }
  f.term = symIn("term", t, BIG);
  f.vote = symLE("vote", 3);
  f.lead = 2;
  f.k = (int)pick("commit", f.ns + 1);
  f.ka = (int)pick("applied", f.k + 1);
  Node n;
  mkFol(f, n);
  auto ra = g_racing;
  static const int types[] = {3, 5, 7, 8};
  int ty = types[pick("type", 4)];
  u64 mt = pick("newer", 2) ? symIn("mterm", f.term, BIG + 1) : f.term;
  auto m = anyMsg(n, ty, mt, AnyOpt{.maxEnts = 1, .from = 2});
  // the leader has what is committed
  if (ty == 3) se_assume((m->index() < n.g.base + f.k) | (m->logterm() >= n.g.term(n.g.base + f.k)));
  // what the application does: store what is unstable, compact what is applied
  int what = (int)pick("app", 2);
  if (what == 0 && !f.nu) se_stop();
  if (what == 1 && !f.ka) se_stop();
  u64 cc = what ? f.base + 1 + pick("compact", f.ka) : 0;
  auto app = [&](Node& x) {
    if (what == 0) { x.st->Append(gEnts(x, f.ns, f.ns + f.nu)); return; }
    raftpb::ConfState cs = x.cfg.cs();
    x.st->CreateSnapshot(cc, &cs, "S");
    x.st->Compact(cc);
  };
  auto msg = [&] { return std::make_shared<raftpb::Message>(*m); };
  Node a, b;
  mkFol(f, a);
  app(a);
  a.r->Step(msg());
  mkFol(f, b);
  b.r->Step(msg());
  app(b);
  Res va = seen(a), vb = seen(b);
  g_fatal = FATAL_BAD;
  ra->app = [&] { app(n); };
  ra->left = 1 + (int)pick("gap", 2 * GAPS);
  n.r->Step(msg());
  if (!ra->ran) se_stop();
  ra->left = 0;
  Res v = seen(n);
  se_assert(same(v, va) | same(v, vb), "the step has the effect it has before or after the change of the storage");
  if (what) se_reach("moved"); else se_reach("kept");
  for (u64 q : v) se_emit(q);
}

// what is read from a log or asked of a node while the storage changes
ENTRY view() {
  FStart f;
  f.base = symIn("base", 1, BIG);
  f.bterm = symIn("bterm", 1, BIG);
  f.ns = (int)pick("nstable", 3);
  f.nu = (int)pick("nunstable", 2);
  u64 t = f.bterm;
  for (int i = 0; i < f.ns + f.nu; i++) { f.t[i] = symIn("eterm", t, BIG); t = f.t[i]; }
  f.term = t;
  f.vote = 0;
  f.lead = 2;
  f.k = (int)pick("commit", f.ns + 1);
  f.ka = (int)pick("applied", f.k + 1);
  int what = (int)pick("app", 2);
  if (what == 0 && !f.nu) se_stop();
  if (what == 1 && !f.ka) se_stop();
  u64 cc = what ? f.base + 1 + pick("compact", f.ka) : 0;
  auto app = [&](Node& x) {
    if (what == 0) { x.st->Append(gEnts(x, f.ns, f.ns + f.nu)); return; }
    raftpb::ConfState cs = x.cfg.cs();
    x.st->CreateSnapshot(cc, &cs, "S");
    x.st->Compact(cc);
  };
  int q = (int)pick("ask", 9);
  u64 off = pick("at", f.ns + f.nu + 2);
  auto ask = [&](Node& n) {
    Res r;
    auto l = n.r->GetRaftLog();
    u64 i = f.base + off;
    switch (q) {
      case 0: put(r, l->AllEntries()); break;
      case 1: { auto [es, s] = l->Entries(i, ~0ull); r << (u64)s.IsOK(); put(r, es); break; }
      case 2: put(r, l->NextEnts()); r << (u64)l->HasNextEnts(); break;
      case 3: r << l->LastTerm() << l->LastIndex(); break;
      case 4: r << l->FirstIndex(); break;
      case 5: { auto [t, s] = l->Term(i); r << (u64)(s.IsOK() ? t : 0); break; }
      case 6: { auto [p, s] = l->Snapshot(); put(r, s); put(r, p); break; }
      case 7: r << (u64)l->MatchTerm(i, n.g.term(f.base + (f.ns + f.nu ? 1 : 0))) << (u64)l->IsUpToData(i, f.term); break;
      default: {
        auto rd = NewReady(n.r.get(), n.r->GetSoftState(), n.r->GetHardState());
        put(r, rd->entries);
        put(r, rd->committed_entries);
        put(r, rd->snapshot);
        r << (u64)rd->must_sync;
      }
    }
    return r;
  };
  Node n, a, b;
  mkFol(f, n);
  auto ra = g_racing;
  mkFol(f, a);
  app(a);
  Res va = ask(a);
  mkFol(f, b);
  Res vb = ask(b);
  g_fatal = FATAL_BAD;
  ra->app = [&] { app(n); };
  ra->left = 1 + (int)pick("gap", GAPS);
  Res v = ask(n);
  if (!ra->ran) se_stop();
  ra->left = 0;
  se_assert(same(v, va) | same(v, vb), "the answer is the one from before or after the change of the storage");
  if (q == 0) se_reach("all");
  if (q == 1) se_reach("entries");
  if (q == 2) se_reach("next");
  if (q == 8) se_reach("ready");
  for (u64 x : v) se_emit(x);
}
