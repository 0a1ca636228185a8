//@ bound one proposal of up to 2 entries with payloads of 0, 1 or 3 bytes at a leader with any outstanding amount and any limit (64 bits); one ready with up to 3 such entries applied; any role change; sequences of 4 (thorough: 5) proposals, conf changes and apply steps
//@ assume the outstanding amount does not exceed 2^62
//@ entry propose reach=refused,first,empty,fits
//@ entry conf reach=counted,empty,refused
//@ entry apply reach=less,zero,follower
//@ entry change reach=leader,follower
//@ entry flow reach=refused,accepted,applied
#include "ready.h"

static const u64 kSizes[] = {0, 1, 3};
static void mkL(Node& n, u64 limit, Cfg c = C3()) {
  n.o.cfg = c;
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  n.o.symCommit = false;
  n.o.maxUncommitted = limit;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
}

ENTRY propose() {
  Node n;
  u64 limit = sym("limit");        // 0: none
  mkL(n, limit);
  u64 u = symLE("outstanding", BIG);
  n->SetUncommittedSize(u);
  auto m = mkMsg(2, 1 + pick("from", 2), 0);
  u64 k = 1 + pick("nprop", 2), s = 0;
  for (u64 i = 0; i < k; i++) {
    u64 d = kSizes[pick("size", 3)];
    s += d;
    m->add_entries()->set_data(std::string(d, 'x'));
  }
  u64 last = n->GetRaftLog()->LastIndex();
  Status st = n->Step(m);
  bool over = (limit != 0) & (u + s > limit);
  bool refuse = (u > 0) & (s > 0) & over;
  if (refuse) {
    se_assert(isErr(st, kErrProposalDropped), "a proposal beyond the limit is reported dropped");
    se_assert((n->UncommittedSize() == u) & (n->GetRaftLog()->LastIndex() == last) & n->Msgs().empty() & sameLog(n.r.get(), n.g), "and has no effect");
    se_reach("refused");
  } else {
    se_assert(st.IsOK(), "any other is accepted");
    se_assert((n->UncommittedSize() == u + s) & (n->GetRaftLog()->LastIndex() == last + k), "its payload is counted");
    se_reach(s == 0 ? "empty" : u == 0 ? "first" : "fits");
  }
  emitNode(n.r.get());
  se_emit(n->UncommittedSize());
}

// what lands in the log is what counts
ENTRY conf() {
  Node n;
  u64 limit = symIn("limit", 1, BIG);
  mkL(n, limit);
  auto l = n->GetRaftLog();
  l->SetCommitted(n.g.last());
  bool pend = pick("pending", 2);
  if (!pend) l->SetApplied(n.g.last());
  else l->SetApplied(n.g.base - 1);
  u64 u = symLE("outstanding", BIG);
  n->SetUncommittedSize(u);
  raftpb::ConfChange c;
  c.set_type(raftpb::ConfChangeAddNode);
  c.set_node_id(9);
  std::string d;
  c.SerializeToString(&d);
  auto m = mkMsg(2, 1, 0);
  auto e = m->add_entries();
  e->set_type(raftpb::EntryConfChange);
  e->set_data(d);
  u64 s = pend ? 0 : d.size();
  u64 last = l->LastIndex();
  Status st = n->Step(m);
  bool refuse = (u > 0) & (s > 0) & (u + s > limit);
  se_assert(st.IsOK() == !refuse, "a configuration change counts like any other payload");
  se_assert((n->UncommittedSize() == (refuse ? u : u + s)) & (l->LastIndex() == last + !refuse), "with its encoded size, or nothing if an empty entry takes its place");
  se_reach(refuse ? "refused" : s ? "counted" : "empty");
  emitNode(n.r.get());
}

ENTRY apply() {
  RN x;
  Node& n = x.n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.symCommit = false;
  mkNode(n);
  bool lead = pick("lead", 2);
  if (lead) anyRole(n, 1 << LEAD, 0);
  else toFollower(n);
  auto l = n->GetRaftLog();
  u64 k = pick("n", 3), sizes[4] = {0, 0, 0, 0};
  for (u64 i = 0; i < k; i++) {
    sizes[i] = kSizes[pick("size", 3)];
    l->Append({mkEnt(l->LastIndex() + 1, n.term ? n.term : 1, 'x', 0, sizes[i])});
  }
  u64 first = l->LastIndex() - k;
  u64 c = pick("commit", k + 1);
  l->SetCommitted(first + c);
  u64 u = lead ? symLE("outstanding", BIG) : 0;
  n->SetUncommittedSize(u);
  wrap(x);
  u64 s = 0;
  for (u64 i = 0; i < c; i++) s += sizes[i];
  if (!x.rn->HasReady()) se_stop();
  x.rn->GetReady();
  se_assert(x.r()->UncommittedSize() == u, "handing out changes nothing");
  x.rn->Advance();
  se_assert(x.r()->UncommittedSize() == (s > u ? 0 : u - s), "what was applied is no longer outstanding, never below zero");
  se_reach(!lead ? "follower" : s > u ? "zero" : "less");
  emitNode(x.r());
}

ENTRY change() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 1;
  n.o.stable = 0; n.o.unstable = 0; n.o.symCommit = false;
  n.o.maxUncommitted = symIn("limit", 1, BIG);
  mkNode(n);
  int role = anyRole(n, 1 << CAND | 1 << LEAD, 0);
  n->SetUncommittedSize(sym("outstanding"));
  if (role == CAND) {
    n->Step(mkMsg(6, 2, n->Term()));
    n->Step(mkMsg(6, 3, n->Term()));
    se_assert(n->State() == kLeader, "elected");
    se_reach("leader");
  } else {
    auto m = mkMsg(8, 2, n->Term() + 1);
    m->set_commit(n.g.base);
    n->Step(m);
    se_assert(n->State() == kFollower, "deposed");
    se_reach("follower");
  }
  se_assert(n->UncommittedSize() == 0, "nothing is outstanding for a new leader, nor without leadership");
  if (role == CAND) {
    auto m = mkMsg(2, 1, 0);
    m->add_entries()->set_data("xxx");
    se_assert(n->Step(m).IsOK() && n->UncommittedSize() == 3, "its first proposal is admitted, whatever the limit");
  }
  emitNode(n.r.get());
}

ENTRY flow() {
#ifdef SE_THOROUGH
  const int STEPS = 5;
#else
  const int STEPS = 4;
#endif
  RN x;
  Node& n = x.n;
  u64 limit = symIn("limit", 1, BIG);
  mkL(n, limit);
  wrap(x);
  Raft* r = x.r();
  auto l = r->GetRaftLog();
  u64 out = 0;
  std::map<u64, u64> size;      // by offset in the log
  u64 appended = 1, applied = 0;
  for (int i = 0; i < STEPS; i++) {
    u64 k = pick("step", 4);
    if (k < 3) {
      u64 s = kSizes[k];
      Status st = x.rn->Propose(std::string(s, 'x'));
      bool refuse = (out > 0) & (s > 0) & (out + s > limit);
      se_assert(st.IsOK() == !refuse, "refused iff the limit says so");
      if (st.IsOK()) { appended++; size[appended] = s; out += s; se_reach("accepted"); }
      else se_reach("refused");
    } else {
      for (u64 id = 2; id <= 3; id++) {
        auto m = mkMsg(4, id, n.term);
        m->set_index(l->LastIndex());
        x.rn->Step(m);
      }
      if (!x.rn->HasReady()) continue;
      auto rd = x.rn->GetReady();
      n.st->Append(rd->entries);
      x.rn->Advance();
      u64 now = appended;
      se_assert(rd->committed_entries.size() == now - applied, "everything acknowledged is applied");
      for (u64 j = applied + 1; j <= now; j++) out -= size[j];
      applied = now;
      se_reach("applied");
    }
    se_assert(r->UncommittedSize() == out, "the outstanding amount is what was accepted and not applied");
  }
  emitNode(r);
}
