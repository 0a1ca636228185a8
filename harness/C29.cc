//@ bound any limit (64 bits); up to 4 (thorough: 5) entries with payloads of 0, 1 or 200 bytes and any index and term; one message to a peer in any replication state; up to 5 readies
//@ assume the encoded size of an entry is what protobuf says
//@ entry limit reach=all,some,one,none
//@ entry slice reach=stored,mixed,limited
//@ entry append reach=all,some,one
//@ entry pages reach=one,several
//@ entry stream reach=several
//@ entry storage reach=all,some
#include "leader.h"
#include "ready.h"

static const u64 kSizes[] = {0, 1, 200};
#ifdef SE_THOROUGH
static const u64 MAXE = 5;
#else
static const u64 MAXE = 4;
#endif
// how many of es (from its start) a limit admits
static u64 admits(const EntryPtrs& es, u64 max) {
  u64 s = 0, k = 0;
  bool open = true;
  for (size_t i = 0; i < es.size(); i++) {
    s += es[i]->ByteSizeLong();
    open = (i == 0) | (open & (s <= max));
    k += open;
  }
  return k;
}
static EntryPtrs anyEntries(u64 n, u64 base) {
  EntryPtrs es;
  u64 t = 1;
  for (u64 i = 0; i < n; i++) {
    u64 d = kSizes[pick("size", 3)];
    es.push_back(mkEnt(base + 1 + i, t, (char)('a' + i), 0, d));
  }
  return es;
}

ENTRY limit() {
  u64 n = pick("n", MAXE + 1);
  EntryPtrs es;
  for (u64 i = 0; i < n; i++) {
    auto e = std::make_shared<raftpb::Entry>();
    e->set_index(sym("index"));
    e->set_term(sym("eterm"));
    if (pick("typed", 2)) e->set_type(raftpb::EntryConfChangeV2);
    u64 d = kSizes[pick("size", n > 3 ? 2 : 3)];
    if (d) e->set_data(std::string(d, 'x'));
    es.push_back(e);
  }
  u64 max = sym("limit");
  EntryPtrs in = es;
  auto out = Util::LimitSize(std::move(es), max);
  u64 k = admits(in, max);
  se_assert(out.size() == k, "the longest run from the start within the limit, at least one");
  for (size_t i = 0; i < out.size() && i < in.size(); i++) se_assert(out[i] == in[i], "the entries themselves");
  if (n == 0) se_reach("none");
  else if (k == n) se_reach("all");
  else se_reach(k == 1 ? "one" : "some");
  se_emit(out.size());
}

ENTRY storage() {
  auto st = std::make_shared<MemoryStorage>(hlog());
  u64 n = 1 + pick("n", 3);
  auto es = anyEntries(n, 0);
  st->Append(es);
  u64 lo = 1 + pick("lo", n), hi = lo + pick("len", n + 2 - lo);
  u64 max = sym("limit");
  auto [out, s] = st->Entries(lo, hi, max);
  EntryPtrs want(es.begin() + (lo - 1), es.begin() + (hi - 1));
  u64 k = admits(want, max);
  se_assert(s.IsOK() && out.size() == k, "the longest run within the limit");
  for (size_t i = 0; i < out.size(); i++) se_assert(sameEntry(*out[i], *want[i]), "the entries stored");
  se_reach(k == want.size() ? "all" : "some");
  se_emit(out.size());
}

ENTRY slice() {
  auto st = std::make_shared<MemoryStorage>(hlog());
  u64 ns = pick("stored", 3), nu = pick("fresh", 3);
  auto es = anyEntries(ns + nu, 0);
  st->Append(EntryPtrs(es.begin(), es.begin() + ns));
  auto l = craft::RaftLog::New(hlog(), st);
  l->Append(EntryPtrs(es.begin() + ns, es.end()));
  if (es.empty()) se_stop();
  u64 lo = 1 + pick("lo", es.size()), hi = lo + 1 + pick("len", es.size() + 1 - lo);
  u64 max = sym("limit");
  auto [out, s] = l->Slice(lo, hi, max);
  EntryPtrs want(es.begin() + (lo - 1), es.begin() + (hi - 1));
  u64 k = admits(want, max);
  se_assert(s.IsOK() && out.size() == k, "the longest run within the limit, wherever the entries are");
  for (size_t i = 0; i < out.size(); i++) se_assert(sameEntry(*out[i], *want[i]), "in order");
  if (k < want.size()) se_reach("limited");
  se_reach(hi - 1 <= ns ? "stored" : lo <= ns ? "mixed" : "stored");
  auto [out2, s2] = l->Entries(lo, max);
  EntryPtrs rest(es.begin() + (lo - 1), es.end());
  se_assert(s2.IsOK() && out2.size() == admits(rest, max), "likewise up to the end");
  se_emit(out.size());
}

// a leader with entries of several sizes and one peer in any state
static void mkSized(Lead& x, u64 limit, u64 k) {
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.symCommit = false;
  n.o.maxMsg = limit;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  for (u64 i = 0; i < k; i++) {
    u64 d = kSizes[pick("size", 3)];
    n.g.e.push_back(GEnt{n.term, 0, (char)('a' + i), d});
    n.r->AppendEntry(mkEnt(0, 0, (char)('a' + i), 0, d));
  }
  n->ClearMsgs();
}
ENTRY append() {
  Lead x;
  mkSized(x, sym("limit"), 2);
  Node& n = x.n;
  u64 limit = n.o.maxMsg;
  symProgressFor(n, 2);
  auto all = n->GetRaftLog()->AllEntries();
  if (pick("ev", 2)) n->Step(mkMsg(9, 2, n.term));
  else {
    auto m = mkMsg(4, 2, n.term);
    m->set_index(anyPos("aindex", n.g));
    n->Step(m);
  }
  for (auto& m : n->Msgs()) {
    if ((int)m->type() != 3) continue;
    // what there is to send from here
    EntryPtrs want;
    for (auto& e : all) if (e->index() > m->index()) want.push_back(e);
    u64 k = admits(want, limit);
    se_assert((u64)m->entries_size() == k, "an append holds the longest run within the limit, at least one entry if there is any");
    bool same = true;
    for (int i = 0; i < m->entries_size() && i < (int)want.size(); i++) same &= sameEntry(m->entries(i), *want[i]);
    se_assert(same, "from its position on");
    se_reach(k == want.size() ? "all" : k == 1 ? "one" : "some");
  }
  emitNode(n.r.get());
}
// a replicating peer that acknowledges gets the whole log, piece by piece
ENTRY stream() {
  Lead x;
  mkSized(x, sym("limit"), 3);
  Node& n = x.n;
  auto p = n->GetTracker().GetProgress(2);
  p->SetMatch(n.g.base);
  p->BecomeReplicate();
  u64 next = n.g.base + 1, msgs = 0;
  n->Step(mkMsg(9, 2, n.term));
  for (int i = 0; i < 5 && next <= n.g.last(); i++) {
    auto out = n->Msgs();
    n->ClearMsgs();
    u64 got = next;
    for (auto& m : out) {
      if ((int)m->type() != 3 || m->to() != 2) continue;
      se_assert(m->index() + 1 == got, "no gap and no repetition");
      got += m->entries_size();
      if (m->entries_size()) msgs++;
    }
    se_assert(got > next, "every round brings something");
    next = got;
    auto a = mkMsg(4, 2, n.term);
    a->set_index(next - 1);
    n->Step(a);
  }
  se_assert(next == n.g.last() + 1, "all of it arrives");
  if (msgs > 1) se_reach("several");
  emitNode(n.r.get());
}

ENTRY pages() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.symCommit = false;
  bool dflt = pick("default", 2);       // 0: the message limit holds
  u64 limit = sym("limit");
  n.o.maxCommittedSize = dflt ? 0 : limit;
  n.o.maxMsg = dflt ? limit : ~0ull;
  if (!dflt) se_assume(limit != 0);
  mkNode(n);
  toFollower(n);
  auto l = n->GetRaftLog();
  u64 k = 1 + pick("n", 3), ns = pick("stored", k + 1);
  EntryPtrs es;
  for (u64 i = 0; i < k; i++) {
    auto e = mkEnt(n.g.base + 1 + i, n.term, (char)('a' + i), 0, kSizes[pick("size", 3)]);
    es.push_back(e);
    l->Append({e});
    if (i < ns) { n.st->Append({e}); }
  }
  if (ns) l->StableTo(n.g.base + ns, n.term);
  u64 c = 1 + pick("commit", k);
  l->SetCommitted(n.g.base + c);
  wrap(x);
  EntryPtrs todo(es.begin(), es.begin() + c);
  int rounds = 0;
  while (!todo.empty() && rounds < 5) {
    se_assert(x.rn->HasReady(), "there is more");
    auto rd = x.rn->GetReady();
    u64 a = admits(todo, limit);
    se_assert(rd->committed_entries.size() == a, "a delivery holds the longest run within the limit, at least one");
    for (u64 i = 0; i < a && i < rd->committed_entries.size(); i++) se_assert(sameEntry(*rd->committed_entries[i], *todo[i]), "from the first not yet delivered on");
    n.st->Append(rd->entries);
    x.rn->Advance();
    todo.erase(todo.begin(), todo.begin() + a);
    rounds++;
  }
  se_assert(todo.empty(), "everything is delivered");
  auto rd = x.rn->ReadyWithoutAccept();
  se_assert(rd->committed_entries.empty(), "once");
  se_reach(rounds == 1 ? "one" : "several");
  emitNode(x.r());
}
