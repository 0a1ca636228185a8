//@ bound storage of at most 2 entries after an arbitrary base, 3 (thorough: 4) operations out of append (at most 2 entries anywhere above the commit index), persisting, acknowledging what was persisted before, committing, receiving and installing a snapshot; then arbitrary queries
//@ assume what the application stores are the entries it was handed; an entry that replaces another has a different term (log matching); appending at or below the commit index is a fatal precondition
//@ entry ops reach=append,replace,stable,replaced,restore,install,commit
//@ entry terms reach=have,outside
//@ entry range reach=compacted,stored,mixed,fresh,limited
//@ entry conflict reach=none,at,past
//@ entry byterm reach=found,beyond
#include "common.h"
#include "src/log.h"

struct Lg {
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<craft::RaftLog> l;
  GLog g;
  u64 commit = 0, uoff = 0;      // not stored from here on
  bool snap = false;             // a snapshot is pending
  u64 sidx = 0;
  // persisted but not yet acknowledged
  bool inflight = false;
  u64 pidx = 0, pterm = 0;
  int tag = 0;
};
static void init(Lg& x, int maxStored) {
  x.st = std::make_shared<MemoryStorage>(hlog());
  if (pick("basekind", 2)) {
    x.g.base = symIn("base", 1, BIG);
    x.g.bterm = symIn("bterm", 1, BIG);
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(x.g.base);
    s->mutable_metadata()->set_term(x.g.bterm);
    x.st->ApplySnapshot(s);
  }
  u64 k = pick("stored", maxStored + 1), t = x.g.bterm;
  EntryPtrs es;
  for (u64 i = 0; i < k; i++) {
    u64 y = symIn("t", 1, BIG);
    se_assume(y >= t);
    t = y;
    x.g.e.push_back(GEnt{y, 0, (char)('a' + x.tag), 1});
    es.push_back(mkEnt(x.g.base + 1 + i, y, (char)('a' + x.tag++)));
  }
  x.st->Append(es);
  x.l = craft::RaftLog::New(hlog(), x.st);
  x.commit = x.g.base;
  x.uoff = x.g.last() + 1;
}
static void same(Lg& x) {
  auto& l = *x.l;
  se_assert((l.FirstIndex() == x.g.base + 1) & (l.LastIndex() == x.g.last()) & (l.LastTerm() == x.g.lastTerm()), "first index, last index and last term are the logical log's");
  se_assert((l.Committed() == x.commit), "the commit index moves by commits and snapshots only");
  bool ok = true;
  for (u64 k = 0; k <= x.g.e.size(); k++) {
    auto [t, s] = l.Term(x.g.base + k);
    ok &= s.IsOK() & (t == x.g.term(x.g.base + k));
  }
  se_assert(ok, "the base and every entry have the logical log's term");
  auto es = l.AllEntries();
  se_assert(es.size() == x.g.e.size(), "all entries, stored or not");
  bool c = true;
  for (size_t i = 0; i < es.size(); i++) c &= sameEnt(*es[i], x.g.base + 1 + i, x.g.e[i]);
  se_assert(c, "with their index, term and content");
  auto us = l.UnstableEntries();
  size_t nst = x.uoff - (x.g.base + 1);
  se_assert(us.size() == x.g.e.size() - nst, "exactly the entries not yet stored wait for storing");
  bool u = true;
  for (size_t i = 0; i < us.size(); i++) u &= sameEnt(*us[i], x.g.base + 1 + nst + i, x.g.e[nst + i]);
  se_assert(u, "and these are the log's");
  se_assert(l.HasPendingSnapshot() == x.snap, "a snapshot is pending until it is installed");
  if (x.snap) {
    auto [s, st] = l.Snapshot();
    se_assert(st.IsOK() && s->metadata().index() == x.sidx, "and it is the one that was received");
  }
}
static void append(Lg& x, u64 n) {
  size_t lo = x.commit - x.g.base;              // entries up to the commit index stay
  size_t at = lo + pick("at", x.g.e.size() - lo + 1);
  EntryPtrs es;
  std::vector<GEnt> ge;
  u64 t = at == 0 ? x.g.bterm : x.g.e[at - 1].term;
  for (u64 i = 0; i < n; i++) {
    u64 y = symIn("t", 1, BIG);
    se_assume(y >= t);
    if (at + i < x.g.e.size()) se_assume(y != x.g.e[at + i].term);
    if (x.inflight && x.g.base + 1 + at + i == x.pidx) se_assume(y != x.pterm);
    t = y;
    ge.push_back(GEnt{y, 0, (char)('a' + x.tag), 1});
    es.push_back(mkEnt(x.g.base + 1 + at + i, y, (char)('a' + x.tag++)));
  }
  u64 r = x.l->Append(es);
  if (at < x.g.e.size()) se_reach("replace"); else se_reach("append");
  x.g.e.resize(at);
  for (auto& e : ge) x.g.e.push_back(e);
  x.uoff = minu(x.uoff, x.g.base + 1 + at);
  se_assert(r == x.g.last(), "an append reports the new last index");
}
static void op(Lg& x) {
  switch (pick("op", 6)) {
    case 0: append(x, 1 + pick("count", 2)); break;
    case 1: {    // the application stores what waits
      auto us = x.l->UnstableEntries();
      if (us.empty() || x.snap || x.inflight) se_stop();
      u64 k = us.size();
      x.st->Append(us);
      x.inflight = true;
      x.pidx = us[k - 1]->index();
      x.pterm = us[k - 1]->term();
      break;
    }
    case 2: {    // and says so, maybe after the log has changed
      if (!x.inflight) se_stop();
      x.l->StableTo(x.pidx, x.pterm);
      x.inflight = false;
      bool in;
      u64 t = x.g.term(x.pidx, &in);
      if (in && x.pidx >= x.uoff && t == x.pterm) { x.uoff = x.pidx + 1; se_reach("stable"); }
      else se_reach("replaced");
      break;
    }
    case 3: {    // commit
      u64 c = x.commit + pick("commit", x.g.last() - x.commit + 1);
      x.l->CommitTo(c);
      x.commit = maxu(c, x.commit);
      se_reach("commit");
      break;
    }
    case 4: {    // a snapshot arrives
      if (x.snap) se_stop();
      u64 i = symIn("sidx", x.commit + 1, BIG + 8), t = symIn("sterm", 1, BIG);
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(i);
      s->mutable_metadata()->set_term(t);
      if (x.inflight) se_stop();
      x.l->Restore(s);
      x.g.base = i; x.g.bterm = t; x.g.e.clear();
      x.commit = i; x.uoff = i + 1; x.snap = true; x.sidx = i;
      se_reach("restore");
      break;
    }
    default: {   // and is installed
      if (!x.snap) se_stop();
      x.l->StableSnapTo(x.sidx - 1);
      se_assert(x.l->HasPendingSnapshot(), "another position's acknowledgement installs nothing");
      auto [s, st] = x.l->Snapshot();
      x.st->ApplySnapshot(s);
      x.l->StableSnapTo(x.sidx);
      x.snap = false;
      se_reach("install");
    }
  }
}
#ifdef SE_THOROUGH
static const int STEPS = 5;
#else
static const int STEPS = 4;
#endif
ENTRY ops() {
  Lg x;
  init(x, 2);
  for (int i = 0; i < STEPS; i++) { op(x); same(x); }
  se_emit(x.g.base);
  se_emit(x.g.last());
}
// some log whose parts lie in the storage, beside it and in a snapshot
static void mixed(Lg& x) {
  init(x, 2);
  if (pick("snap", 2)) {
    u64 i = symIn("sidx", x.g.last() + 1, BIG + 8), t = symIn("sterm", 1, BIG);
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(i);
    s->mutable_metadata()->set_term(t);
    x.l->Restore(s);
    x.g.base = i; x.g.bterm = t; x.g.e.clear();
    x.commit = i; x.uoff = i + 1; x.snap = true; x.sidx = i;
  }
  u64 n = pick("fresh", 3);
  if (n) append(x, n);
}
ENTRY terms() {
  Lg x;
  mixed(x);
  // whatever is committed and applied of it
  x.l->SetCommitted(x.g.base + pick("commit", x.g.e.size() + 1));
  if (pick("apply", 2)) x.l->SetApplied(x.l->Committed());
  u64 i = sym("query");
  auto [t, st] = x.l->Term(i);
  bool ok;
  u64 want = x.g.term(i, &ok);
  se_assert(implies(ok, st.IsOK() & (t == want)), "a position of the log has the entry's term");
  se_assert(implies(!ok, t == 0), "and any other none");
  u64 q = sym("term");
  se_assert(x.l->MatchTerm(i, q) == (ok ? q == want : q == 0 && st.IsOK()), "a position matches exactly its own term");
  se_reach(ok ? "have" : "outside");
  u64 li = sym("lasti"), lt = sym("lastt");
  se_assert(x.l->IsUpToData(li, lt) == ((lt > x.g.lastTerm()) | ((lt == x.g.lastTerm()) & (li >= x.g.last()))), "up to date: higher last term, or the same and no shorter");
}
ENTRY range() {
  Lg x;
  mixed(x);
  u64 lo = symIdx("lo", x.g, 1), hi = symIdx("hi", x.g, 1), max = sym("max");
  se_assume(lo <= hi);
  auto [es, st] = x.l->Slice(lo, hi, max);
  if (lo <= x.g.base) { se_assert(isErr(st, kErrCompacted), "below the log: compacted"); se_reach("compacted"); return; }
  se_assert(hi <= x.g.last() + 1, "nothing past the end");
  se_assert(st.IsOK(), "a range of the log is there");
  u64 full = hi - lo;
  se_assert(es.size() <= full && (full == 0 || es.size() >= 1), "at most what was asked, at least one");
  u64 size = 0;
  bool same = true;
  for (size_t i = 0; i < es.size(); i++) {
    same &= sameEnt(*es[i], lo + i, x.g.e[lo - x.g.base - 1 + i]);
    size += es[i]->ByteSizeLong();
  }
  se_assert(same, "exactly the entries asked for");
  se_assert(es.size() <= 1 || size <= max, "no larger than the limit unless it is a single one");
  if (es.size() < full) {
    u64 next = mkEnt(lo + es.size(), x.g.e[lo - x.g.base - 1 + es.size()].term, 'z')->ByteSizeLong();
    se_assert(size + next > max, "and the longest such run");
    se_reach("limited");
  }
  if (full) se_reach(hi <= x.uoff ? "stored" : lo >= x.uoff ? "fresh" : "mixed");
}
ENTRY conflict() {
  Lg x;
  mixed(x);
  u64 first = x.g.base + 1 + pick("first", x.g.e.size() + 1), n = pick("n", 3);
  EntryPtrs es;
  std::vector<u64> ts;
  for (u64 i = 0; i < n; i++) {
    u64 t = symIn("t", 1, BIG);
    ts.push_back(t);
    es.push_back(mkEnt(first + i, t, 'q'));
  }
  u64 want = 0;
  for (u64 i = n; i-- > 0;) {
    bool in;
    u64 t = x.g.term(first + i, &in);
    want = (!in | (t != ts[i])) ? first + i : want;
  }
  u64 c = x.l->FindConflict(es);
  se_assert(c == want, "the first position that is missing or has another term, 0 if there is none");
  se_reach(c == 0 ? "none" : c <= x.g.last() ? "at" : "past");
  se_emit(c);
}
ENTRY byterm() {
  Lg x;
  mixed(x);
  u64 i = symIn("index", x.g.base, BIG + 64), t = sym("term");
  u64 r = x.l->FindConflictByTerm(i, t);
  if (i > x.g.last()) { se_assert(r == i, "past the end: the position itself"); se_reach("beyond"); return; }
  u64 want = 0;
  bool any = false;
  for (u64 k = 0; k <= x.g.e.size(); k++) {
    u64 p = x.g.base + k;
    bool take = (p <= i) & (x.g.term(p) <= t);
    want = take ? p : want;
    any |= take;
  }
  if (any) { se_assert(r == want, "the largest position up to it whose term does not exceed the given one"); se_reach("found"); }
  else se_assert(r <= x.g.base, "or one below the log");
  se_emit(r);
}
