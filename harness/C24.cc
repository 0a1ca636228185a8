//@ bound arbitrary base position and term, at most 2 entries to start with, then 3 (thorough: 4) operations out of append (at most 2 entries anywhere from below the base to past the end), compact, create and apply snapshot at arbitrary positions; then arbitrary queries
//@ assume operations beyond the end of the log are fatal preconditions
//@ entry ops reach=append,overwrite,below,compact,refused,create,apply,outdated,late,gap
//@ entry terms reach=compacted,unavailable,have
//@ entry range reach=compacted,unavailable,limited,all,beyond
//@ entry shared reach=created,applied
//@ entry hard reach=state
#include "common.h"

struct St {
  std::shared_ptr<MemoryStorage> m;
  GLog g;
  u64 si = 0, stm = 0;          // latest snapshot
  std::string sdata;
  size_t svoters = 0;
  struct Given { SnapshotPtr p; u64 i, t; std::string d; size_t v; };
  std::vector<Given> given;
  int tag = 0;
};
static SnapshotPtr mkSnap(u64 i, u64 t, int voters, const std::string& d) {
  auto s = std::make_shared<raftpb::Snapshot>();
  s->mutable_metadata()->set_index(i);
  s->mutable_metadata()->set_term(t);
  for (int k = 0; k < voters; k++) s->mutable_metadata()->mutable_conf_state()->add_voters(k + 1);
  s->set_data(d);
  return s;
}
static void handOut(St& s) {
  auto [p, st] = s.m->SnapShot();
  se_assert(st.IsOK() && p != nullptr, "a storage has a snapshot, maybe an empty one");
  s.given.push_back({p, p->metadata().index(), p->metadata().term(), p->data(), (size_t)p->metadata().conf_state().voters_size()});
}
static void checkGiven(St& s) {
  bool ok = true;
  for (auto& x : s.given) {
    ok &= (x.p->metadata().index() == x.i) & (x.p->metadata().term() == x.t);
    ok &= x.p->data() == x.d && (size_t)x.p->metadata().conf_state().voters_size() == x.v;
  }
  se_assert(ok, "a snapshot handed out is never changed by later calls");
}
static void init(St& s, int maxEnts) {
  s.m = std::make_shared<MemoryStorage>(hlog());
  if (pick("basekind", 2)) {
    s.g.base = symIn("base", 1, BIG);
    s.g.bterm = symIn("bterm", 1, BIG);
    auto st = s.m->ApplySnapshot(mkSnap(s.g.base, s.g.bterm, 3, "S"));
    se_assert(st.IsOK(), "the first snapshot is accepted");
    s.si = s.g.base; s.stm = s.g.bterm; s.sdata = "S"; s.svoters = 3;
  }
  u64 k = pick("n", maxEnts + 1);
  EntryPtrs es;
  for (u64 i = 0; i < k; i++) {
    u64 t = symIn("t", 1, BIG);
    s.g.e.push_back(GEnt{t, 0, (char)('a' + s.tag), 1});
    es.push_back(mkEnt(s.g.base + 1 + i, t, (char)('a' + s.tag++)));
  }
  s.m->Append(es);
}
static void same(St& s) {
  auto [fi, s1] = s.m->FirstIndex();
  auto [li, s2] = s.m->LastIndex();
  se_assert(s1.IsOK() & s2.IsOK() & (fi == s.g.base + 1) & (li == s.g.last()), "first and last index are the abstract log's");
  bool ok = true;
  for (u64 k = 0; k <= s.g.e.size(); k++) {
    auto [t, st] = s.m->Term(s.g.base + k);
    ok &= st.IsOK() & (t == s.g.term(s.g.base + k));
  }
  se_assert(ok, "the base and every entry have the abstract log's term");
  if (!s.g.e.empty()) {
    auto [es, st] = s.m->Entries(s.g.base + 1, s.g.last() + 1, UINT64_MAX);
    se_assert(st.IsOK() && es.size() == s.g.e.size(), "all entries are there");
    bool same = true;
    for (size_t i = 0; i < es.size(); i++) same &= sameEnt(*es[i], s.g.base + 1 + i, s.g.e[i]);
    se_assert(same, "with their index, term and content");
  }
  auto [p, st] = s.m->SnapShot();
  se_assert(st.IsOK() && (p->metadata().index() == s.si) & (p->metadata().term() == s.stm), "the latest snapshot has its position and term");
  se_assert(p->data() == s.sdata && (size_t)p->metadata().conf_state().voters_size() == s.svoters, "its data and configuration");
  auto [hs, cs, st3] = s.m->InitialState();
  se_assert(st3.IsOK() && (size_t)cs.voters_size() == s.svoters, "the initial state's configuration is the snapshot's");
}
static void dropTo(GLog& g, u64 k) {   // base moves up by k
  if (!k) return;
  u64 t = g.e[k - 1].term;
  g.e.erase(g.e.begin(), g.e.begin() + k);
  g.base += k;
  g.bterm = t;
}
static void op(St& s) {
  GLog& g = s.g;
  switch (pick("op", 5)) {
    case 0: {   // append
      u64 n = pick("count", 3);
      if (!n) { s.m->Append(EntryPtrs()); break; }
      // from up to two below the base to one past the end (and beyond)
      u64 at = pick("at", g.e.size() + 5);
      if (at < 2 && g.base == 0) se_stop();
      if (at == 0) se_assume(g.base >= 2);
      u64 first = g.base + at - 1;
      EntryPtrs es;
      std::vector<GEnt> ge;
      for (u64 i = 0; i < n; i++) {
        u64 t = symIn("t", 1, BIG);
        ge.push_back(GEnt{t, 0, (char)('a' + s.tag), 1});
        es.push_back(mkEnt(first + i, t, (char)('a' + s.tag++)));
      }
      bool gap = at > g.e.size() + 2;
      if (gap) se_reach("gap");
      auto st = s.m->Append(es);
      se_assert(!gap, "entries are never appended beyond a gap");
      se_assert(st.IsOK(), "an append succeeds");
      if (at + n <= 2) { se_reach("below"); break; }   // all of it compacted
      size_t skip = at < 2 ? 2 - at : 0;
      size_t pos = at < 2 ? 0 : at - 2;
      if (pos < g.e.size()) se_reach("overwrite"); else se_reach("append");
      g.e.resize(pos);
      for (size_t i = skip; i < n; i++) g.e.push_back(ge[i]);
      break;
    }
    case 1: {   // compact
      u64 to = symIdx("compact", g, 0);
      auto st = s.m->Compact(to);
      if (to <= g.base) { se_assert(isErr(st, kErrCompacted), "an outdated compaction is refused"); se_reach("refused"); break; }
      se_assert(to <= g.last(), "nothing beyond the end is compacted");
      se_assert(st.IsOK(), "a compaction within the log succeeds");
      dropTo(g, to - g.base);
      se_reach("compact");
      break;
    }
    case 2: {   // create a snapshot
      u64 at = symIdx("snap", g, 0);
      raftpb::ConfState cs;
      int v = (int)pick("voters", 2);
      for (int k = 0; k < v; k++) cs.add_voters(k + 7);
      std::string d(1, (char)('P' + s.tag));
      auto [p, st] = s.m->CreateSnapshot(at, v ? &cs : nullptr, d);
      if (at <= s.si) { se_assert(isErr(st, kErrSnapOutOfDate), "an outdated snapshot is refused"); se_reach("outdated"); break; }
      if (at < g.base) { se_assert(isErr(st, kErrCompacted), "a snapshot of a position already compacted is refused"); se_reach("late"); break; }
      se_assert(at <= g.last(), "no snapshot beyond the end");
      se_assert(st.IsOK() && p != nullptr, "a snapshot within the log is created");
      s.si = at; s.stm = g.term(at); s.sdata = d;
      if (v) s.svoters = 1;
      se_assert((p->metadata().index() == at) & (p->metadata().term() == s.stm), "the created snapshot names the position and its term");
      se_assert(p->data() == d && (size_t)p->metadata().conf_state().voters_size() == s.svoters, "and holds data and configuration");
      s.given.push_back({p, at, s.stm, d, s.svoters});
      se_reach("create");
      break;
    }
    case 3: {   // install a snapshot
      u64 at = symIdx("apply", g, 0);
      u64 t = symIn("snapterm", 1, BIG);
      auto st = s.m->ApplySnapshot(mkSnap(at, t, 2, "I"));
      if (at <= s.si) { se_assert(isErr(st, kErrSnapOutOfDate), "an outdated snapshot is refused"); se_reach("outdated"); break; }
      se_assert(st.IsOK(), "a newer snapshot is installed");
      g.base = at; g.bterm = t; g.e.clear();
      s.si = at; s.stm = t; s.sdata = "I"; s.svoters = 2;
      se_reach("apply");
      break;
    }
    default: handOut(s);
  }
}
#ifdef SE_THOROUGH
static const int STEPS = 4, FREE = 2;
#else
static const int STEPS = 3, FREE = 2;
#endif
ENTRY ops() {
  St s;
  init(s, FREE);
  for (int i = 0; i < STEPS; i++) {
    op(s);
    same(s);
  }
  checkGiven(s);
  se_emit(s.g.base);
  se_emit(s.g.last());
}
ENTRY terms() {
  St s;
  init(s, 3);
  if (!s.g.e.empty() && pick("compact", 2)) { u64 k = pick("by", s.g.e.size()) + 1; s.m->Compact(s.g.base + k); dropTo(s.g, k); }
  u64 i = sym("query");
  auto [t, st] = s.m->Term(i);
  bool ok;
  u64 want = s.g.term(i, &ok);
  if (st.IsOK()) { se_assert(ok & (t == want), "a term is that of the entry"); se_reach("have"); }
  else {
    se_assert(!ok, "a position within the log has a term");
    if (i < s.g.base) { se_assert(isErr(st, kErrCompacted), "below the base: compacted"); se_reach("compacted"); }
    else { se_assert(isErr(st, kErrUnavailable), "past the end: unavailable"); se_reach("unavailable"); }
  }
  se_emit(t);
}
ENTRY range() {
  St s;
  init(s, 3);
  u64 lo = symIdx("lo", s.g, 1);
  u64 hi = symIdx("hi", s.g, 1);
  se_assume(lo <= hi);
  u64 max = sym("max");
  if (hi > s.g.last() + 1 && lo > s.g.base) se_reach("beyond");
  auto [es, st] = s.m->Entries(lo, hi, max);
  if (lo <= s.g.base) { se_assert(isErr(st, kErrCompacted), "below the base: compacted"); se_reach("compacted"); return; }
  se_assert(hi <= s.g.last() + 1, "nothing past the end");
  if (s.g.e.empty()) { se_assert(isErr(st, kErrUnavailable), "an empty log has no entries"); se_reach("unavailable"); return; }
  se_assert(st.IsOK(), "entries within the log are there");
  u64 full = hi - lo;
  se_assert(es.size() <= full && (full == 0 || es.size() >= 1), "at most what was asked, at least one");
  u64 size = 0;
  bool same = true;
  for (size_t i = 0; i < es.size(); i++) {
    same &= sameEnt(*es[i], lo + i, s.g.e[lo - s.g.base - 1 + i]);
    size += es[i]->ByteSizeLong();
  }
  se_assert(same, "exactly the entries asked for");
  se_assert(es.size() <= 1 || size <= max, "no larger than the limit unless it is a single one");
  if (es.size() < full) {
    u64 next = mkEnt(lo + es.size(), s.g.e[lo - s.g.base - 1 + es.size()].term, 'z')->ByteSizeLong();
    se_assert(size + next > max, "and the longest such run");
    se_reach("limited");
  } else se_reach("all");
}
// handed out, then two more operations
ENTRY shared() {
  St s;
  init(s, 3);
  handOut(s);
  if (s.g.e.size() < 2) se_stop();
  for (u64 i = 0; i < 2; i++) {
    u64 at = s.g.base + 1 + pick("at", 3);
    if (at > s.g.last() || at <= s.si) se_stop();
    if (pick("how", 2)) {
      raftpb::ConfState cs;
      cs.add_voters(9);
      s.m->CreateSnapshot(at, &cs, "new");
      se_reach("created");
      s.si = at;
    } else {
      s.m->ApplySnapshot(mkSnap(at, symIn("snapterm", 1, BIG), 2, "I"));
      se_reach("applied");
      break;
    }
    handOut(s);
  }
  checkGiven(s);
}
ENTRY hard() {
  St s;
  init(s, 1);
  raftpb::HardState h;
  h.set_term(sym("term"));
  h.set_vote(sym("vote"));
  h.set_commit(sym("commit"));
  s.m->SetHardState(h);
  op(s);
  auto [hs, cs, st] = s.m->InitialState();
  se_assert(st.IsOK() & (hs.term() == h.term()) & (hs.vote() == h.vote()) & (hs.commit() == h.commit()), "the hard state is the one stored last");
  se_reach("state");
}
