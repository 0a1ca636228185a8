//@ bound at most two events (append, conflicting append, heartbeat, snapshot, proposal, timeout, vote request, read, acknowledgement) with one or two readies stored (the second event before or after the first ready is acknowledged), then a crash at a ready boundary (acknowledged or not) and a restart with any applied index the application may have; any role; log of at most 1 stored + 1 not yet stored entry and/or a pending snapshot
//@ assume the application stores a ready's snapshot, entries and hard state before it sends its messages and acknowledges it
//@ entry sync reach=vote,samevote,entries,nosync,between
//@ entry promise reach=ack,grant,append
//@ entry restart reach=after1,after2,redeliver,caughtup
//@ entry bootstrap reach=fresh,nonempty,empty
#include "ready.h"

static void mk(RN& x, int mask = 15) {
  Node& n = x.n;
  n.o.cfg = pick("cfg", 2) ? C1() : C3();
  n.o.pend = -1;
  n.o.baseKind = 1;
  n.o.preVote = symB("pv");
  n.o.committedStable = false;
  mkNode(n);
  x.role = anyRole(n, mask, 0);
  wrap(x);
  x.st->SetHardState(x.hard);     // as the former ready had it stored
}
static void store(RN& x, const Ready& rd) {
  if (!IsEmptySnap(rd.snapshot)) x.st->ApplySnapshot(rd.snapshot);
  x.st->Append(rd.entries);
  if (!IsEmptyHardState(rd.hard_state)) x.st->SetHardState(rd.hard_state);
}

ENTRY sync() {
  RN x;
  mk(x);
  raftpb::HardState old = x.hard;
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  auto rd = x.rn->GetReady();
  auto hs = x.r()->GetHardState();
  bool ch = (hs.term() != old.term()) | (hs.vote() != old.vote());
  se_assert(rd->must_sync == (ch | !rd->entries.empty()), "a synchronous write is required iff term or vote changed or there are entries");
  se_assert(implies(ch | (hs.commit() != old.commit()), sameHard(rd->hard_state, hs)), "a changed state is in the ready");
  if (ch) se_reach("vote");
  if (ch & (hs.term() == old.term())) se_reach("samevote");
  if (!rd->entries.empty()) se_reach("entries");
  if (!rd->must_sync) se_reach("nosync");
  store(x, *rd);
  // and the next one is judged by what was handed out, not by what the node began with
  // nor by what it was when that was acknowledged
  bool mid = pick("mid", 2);
  int ev2 = (int)pick("ev2", R_N);
  if (mid) rnEvent(x, ev2, "b.");
  x.rn->Advance();
  if (!mid) rnEvent(x, ev2, "b.");
  else se_reach("between");
  auto h1 = x.r()->GetHardState();
  auto r2 = x.rn->GetReady();
  bool ch2 = (h1.term() != hs.term()) | (h1.vote() != hs.vote());
  se_assert(r2->must_sync == (ch2 | !r2->entries.empty()), "a synchronous write is required iff term or vote changed or there are entries (second ready)");
  se_assert((ch2 | (h1.commit() != hs.commit())) ? sameHard(r2->hard_state, h1) : IsEmptyHardState(r2->hard_state), "a changed state is in the ready (second ready)");
  se_emit(rd->must_sync); se_emit(r2->must_sync);
}

// what a ready's messages promise is covered by what the ready asks to store
ENTRY promise() {
  RN x;
  mk(x);
  // make peers worth sending to
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  if (pick("more", 2)) rnEvent(x, (int)pick("ev2", R_N), "b.");
  auto rd = x.rn->GetReady();
  store(x, *rd);
  auto hsx = std::get<0>(x.st->InitialState());
  u64 first = std::get<0>(x.st->FirstIndex()), last = std::get<0>(x.st->LastIndex());
  auto holds = [&](u64 i, u64 t) {
    if (i < first) return true;
    auto g = x.st->Term(i);
    return std::get<1>(g).IsOK() && std::get<0>(g) == t;
  };
  for (auto& m : rd->messages) {
    int ty = (int)m->type();
    if (ty == 17 || ty == 18) continue;       // pre-votes speak of a future term
    if (ty == 2 || ty == 15) continue;        // forwarded requests carry no term
    se_assert(m->term() <= hsx.term(), "no message carries a term that is not stored");
    if (ty == 4 && !m->reject()) {
      // an acknowledgement: the log up to there is stored
      se_assert(implies(m->term() == hsx.term(), m->index() <= last), "acknowledged entries are stored");
      se_reach("ack");
    }
    if (ty == 6 && !m->reject() && m->term() == hsx.term()) {
      se_assert(hsx.vote() == m->to(), "a granted vote is stored");
      se_reach("grant");
    }
    if (ty == 5 && m->term() == hsx.term()) se_assert(hsx.vote() == 1, "a candidate's own vote is stored");
    if (ty == 3 && m->term() == hsx.term() && x.r()->State() == kLeader) {
      for (auto& e : m->entries()) se_assert(holds(e.index(), e.term()), "what is replicated is stored");
      se_reach("append");
    }
  }
  se_emit(last); se_emit(hsx.term()); se_emit(hsx.vote());
}

ENTRY restart() {
  RN x;
  mk(x);
  u64 delivered = x.r()->GetRaftLog()->Applied();
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  auto rd = x.rn->GetReady();
  store(x, *rd);
  auto hs = x.r()->GetHardState();
  auto ents = x.r()->GetRaftLog()->AllEntries();
  u64 low = x.r()->GetRaftLog()->FirstIndex() - 1;
  u64 lowTerm = termAt(x.r(), low);
  u64 mayApply = delivered;       // what the application may have applied durably
  auto took = [&](const Ready& r) {
    if (!IsEmptySnap(r.snapshot)) mayApply = maxu(mayApply, r.snapshot->metadata().index());
    if (!r.committed_entries.empty()) mayApply = r.committed_entries.back()->index();
  };
  took(*rd);
  bool again = pick("again", 2);
  if (pick("acked", 2) || again) {
    bool mid = again && pick("mid", 2);
    int ev2 = again ? (int)pick("ev2", R_N) : R_NONE;
    if (mid) rnEvent(x, ev2, "b.");
    x.rn->Advance();
    hs = x.r()->GetHardState();
    if (again) {
      if (!mid) rnEvent(x, ev2, "b.");
      auto r2 = x.rn->GetReady();
      store(x, *r2);
      took(*r2);
      hs = x.r()->GetHardState();
      ents = x.r()->GetRaftLog()->AllEntries();
      low = x.r()->GetRaftLog()->FirstIndex() - 1;
      lowTerm = termAt(x.r(), low);
    }
    else ents = x.r()->GetRaftLog()->AllEntries();
  }
  se_reach(again ? "after2" : "after1");
  // crash; everything but the store is lost
  Raft::Config c = x.n.conf;
  u64 app = pick("appfull", 2) ? mayApply : low;
  if (app < low) app = low;
  c.applied = app;
  g_fatal = FATAL_BAD;
  auto rn = RawNode::New(c);
  g_fatal = FATAL_STOP;
  Raft* r = rn->GetRaft();
  auto l = r->GetRaftLog();
  // an acknowledged ready may be followed by an auto-leave entry that is not stored yet: none here
  se_assert((r->Term() == hs.term()) & (r->Vote() == hs.vote()), "term and vote survive");
  se_assert(l->Committed() == maxu(hs.commit(), low), "the stored commit index survives");
  auto mine = l->AllEntries();
  bool same = (l->FirstIndex() == low + 1) & (mine.size() == ents.size());
  for (size_t i = 0; i < mine.size() && i < ents.size(); i++) same &= sameEntry(*mine[i], *ents[i]);
  se_assert(same & (termAt(r, low) == lowTerm), "the log survives");
  se_assert((r->State() == kFollower) & (r->Lead() == 0) & r->Msgs().empty(), "it starts as a quiet follower");
  se_assert(l->Applied() == app, "applying goes on where the application is");
  se_assert(l->UnstableEntries().empty() && !l->HasPendingSnapshot(), "nothing waits to be stored");
  se_assert(rn->HasReady() == (l->Committed() > app), "there is work iff something committed is not applied");
  auto q = rn->GetReady();
  se_assert(q->entries.empty() && q->messages.empty() && IsEmptySnap(q->snapshot) && IsEmptyHardState(q->hard_state) && !q->must_sync, "nothing to store or send");
  size_t k = q->committed_entries.size();
  se_assert(k == l->Committed() - app, "the committed entries after the applied ones are delivered again");
  for (size_t i = 0; i < k; i++) se_assert(q->committed_entries[i]->index() == app + 1 + i, "in order");
  se_reach(k ? "redeliver" : "caughtup");
  se_emit(r->Term()); se_emit(l->LastIndex()); se_emit(k);
}

ENTRY bootstrap() {
  Opt o;
  auto st = std::make_shared<MemoryStorage>(hlog());
  u64 kind = pick("store", 2);
  if (kind) {
    u64 k = 1 + pick("ents", 2);
    EntryPtrs es;
    for (u64 i = 1; i <= k; i++) es.push_back(mkEnt(i, 1, 'a'));
    st->Append(es);
  }
  Raft::Config c = mkConf(o, st);
  auto rn = RawNode::New(c);
  std::vector<Peer> peers;
  u64 np = pick("peers", 4);
  for (u64 i = 1; i <= np; i++) peers.push_back(Peer{i, std::string(1, (char)('p' + i))});
  g_fatal = FATAL_BAD;
  auto s = rn->Bootstrap(peers);
  Raft* r = rn->GetRaft();
  auto l = r->GetRaftLog();
  if (np == 0 || kind) {
    se_assert(!s.IsOK(), "bootstrapping without peers or on a nonempty storage is refused");
    se_assert((r->Term() == 0) & (l->Committed() == 0) & l->UnstableEntries().empty(), "without effect");
    se_reach(kind ? "nonempty" : "empty");
    se_emit(np);
    return;
  }
  se_assert(s.IsOK(), "a fresh node is bootstrapped");
  se_assert(rn->HasReady(), "which is announced");
  auto rd = rn->GetReady();
  se_assert((rd->hard_state.term() == 1) & (rd->hard_state.vote() == 0) & (rd->hard_state.commit() == np) & rd->must_sync, "the state to store");
  se_assert(rd->entries.size() == np && rd->committed_entries.size() == np, "one entry per peer, committed");
  for (u64 i = 0; i < np; i++) {
    auto& e = *rd->entries[i];
    raftpb::ConfChange cc;
    se_assert(cc.ParseFromString(e.data()), "a configuration change");
    se_assert((e.index() == i + 1) & (e.term() == 1) & ((int)e.type() == 1) & ((int)cc.type() == 0) & (cc.node_id() == i + 1) & (cc.context() == peers[i].context), "adding that peer with its context");
    se_assert(sameEntry(e, *rd->committed_entries[i]), "the committed ones are the same");
  }
  st->Append(rd->entries);
  st->SetHardState(rd->hard_state);
  rn->Advance();
  auto cs = r->GetTracker().ConfState();
  se_assert(cs.voters_size() == (int)np && cs.learners_size() == 0 && cs.voters_outgoing_size() == 0, "all peers are voters at once");
  // applying the delivered changes again is harmless
  for (u64 i = 0; i < np; i++) {
    raftpb::ConfChange cc;
    cc.set_type(raftpb::ConfChangeAddNode);
    cc.set_node_id(i + 1);
    auto cs2 = rn->ApplyConfChange(ConfChangeI(std::move(cc)));
    se_assert(cs2 == cs, "applying them again changes nothing");
  }
  se_assert(!rn->HasReady(), "nothing is left");
  rn->Campaign();
  se_assert(np == 1 ? r->State() == kLeader : r->State() == kCandidate, "it can campaign");
  se_reach("fresh");
  se_emit(r->Term());
}
