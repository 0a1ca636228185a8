//@ bound at most two events (append, conflicting append, heartbeat, snapshot, proposal, timeout, vote request, read, acknowledgement) before and one or two after taking a ready, three readies; any role; log of at most 1 stored + 2 not yet stored entries and/or a pending snapshot; page sizes unlimited or one entry
//@ assume the application stores and applies what a ready holds before it acknowledges it
//@ entry content reach=snapshot,entries,committed,soft,hard,reads,msgs,nothing
//@ entry cycle reach=replaced,snapshot,more,page
//@ entry accept reach=accepted
#include "ready.h"

static void mk(RN& x, bool page, int mask = 15) {
  Node& n = x.n;
  n.o.cfg = pick("cfg", 2) ? C1() : C3();
  n.o.pend = -1;
  n.o.baseKind = 1;
  n.o.preVote = false;
  n.o.committedStable = false;
#ifdef SE_THOROUGH
  n.o.maxUnstable = 2;
#endif
  if (page) n.o.maxCommittedSize = 1;
  mkNode(n);
  x.role = anyRole(n, mask, 0);
  wrap(x);
}
// the ready holds exactly what there is to do
static void exact(RN& x, const Ready& rd, u64 maxPage) {
  Raft* r = x.r();
  auto l = r->GetRaftLog();
  auto un = l->UnstableEntries();
  bool same = rd.entries.size() == un.size();
  for (size_t i = 0; i < un.size() && same; i++) same &= sameEntry(*rd.entries[i], *un[i]);
  se_assert(same, "the entries to store");
  u64 from = maxu(l->Applied(), l->FirstIndex() - 1);
  u64 cnt = l->Committed() - from;
  auto all = l->AllEntries();
  size_t k = rd.committed_entries.size();
  se_assert(maxPage == 1 ? k == minu(cnt, 1) : k == cnt, "the committed entries not yet applied");
  for (size_t i = 0; i < k; i++) {
    bool hit = false;
    for (auto& e : all) hit |= (e->index() == from + 1 + i) & sameEntry(*e, *rd.committed_entries[i]);
    se_assert(hit & (rd.committed_entries[i]->index() == from + 1 + i), "in order, from the first not yet applied, as the log has them");
  }
  auto& ms = r->Msgs();
  se_assert(rd.messages.size() == ms.size(), "all messages");
  for (size_t i = 0; i < ms.size(); i++) se_assert(rd.messages[i] == ms[i], "all messages, in order");
  SoftState ss = r->GetSoftState();
  bool sd = (ss.lead != x.soft.lead) | (ss.raft_state != x.soft.raft_state);
  se_assert(rd.soft_state.has_value() == sd, "leader and role are reported iff they changed");
  if (rd.soft_state) se_assert((rd.soft_state->lead == ss.lead) & (rd.soft_state->raft_state == ss.raft_state), "as they are");
  auto hs = r->GetHardState();
  bool hd = !sameHard(hs, x.hard);
  se_assert(hd ? sameHard(rd.hard_state, hs) : IsEmptyHardState(rd.hard_state), "the state to store is reported iff it changed");
  bool snap = l->HasPendingSnapshot();
  se_assert(snap ? rd.snapshot && rd.snapshot->metadata().index() == l->UnstableSnapshot()->metadata().index() : IsEmptySnap(rd.snapshot), "a snapshot to install is reported");
  auto& rs = r->GetReadStates();
  se_assert(rd.read_states.size() == rs.size(), "all read results");
  for (size_t i = 0; i < rs.size() && i < rd.read_states.size(); i++) se_assert((rd.read_states[i].index == rs[i].index) & (rd.read_states[i].request_ctx == rs[i].request_ctx), "as they are");
  bool any = sd | hd | snap | !un.empty() | (k > 0) | !ms.empty() | !rs.empty();
  se_assert(x.rn->HasReady() == any, "a ready is announced iff it has content");
  if (snap) se_reach("snapshot");
  if (!un.empty()) se_reach("entries");
  if (k) se_reach("committed");
  if (sd) se_reach("soft");
  if (hd) se_reach("hard");
  if (!rs.empty()) se_reach("reads");
  if (!ms.empty()) se_reach("msgs");
  if (!any) se_reach("nothing");
}
static void store(RN& x, const Ready& rd) {
  if (!IsEmptySnap(rd.snapshot)) x.st->ApplySnapshot(rd.snapshot);
  x.st->Append(rd.entries);
  if (!IsEmptyHardState(rd.hard_state)) x.st->SetHardState(rd.hard_state);
}
static void reported(RN& x, const Ready& rd) {
  if (rd.soft_state) x.soft = *rd.soft_state;
  if (!IsEmptyHardState(rd.hard_state)) x.hard = rd.hard_state;
}

ENTRY content() {
  RN x;
  mk(x, false);
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  if (pick("more", 2)) rnEvent(x, (int)pick("ev2", R_N), "b.");
  Snapv s0 = snapv(x.r());
  bool has = x.rn->HasReady();
  auto p1 = x.rn->ReadyWithoutAccept();
  exact(x, *p1, ~0ull);
  se_assert(snapv(x.r()) == s0 && x.r()->Msgs().size() == p1->messages.size(), "looking changes nothing");
  se_assert(x.rn->HasReady() == has, "nor whether there is a ready");
  auto rd = x.rn->GetReady();
  se_assert(rd->messages.size() == p1->messages.size() && rd->entries.size() == p1->entries.size() && rd->committed_entries.size() == p1->committed_entries.size() && rd->read_states.size() == p1->read_states.size() &&
            rd->soft_state.has_value() == p1->soft_state.has_value() && sameHard(rd->hard_state, p1->hard_state) && rd->must_sync == p1->must_sync, "taking it gives what looking gave");
  se_emit(rd->entries.size()); se_emit(rd->committed_entries.size()); se_emit(rd->messages.size()); se_emit(rd->hard_state.term()); se_emit(rd->hard_state.commit());
}

ENTRY cycle() {
  RN x;
  bool page = pick("page", 2);
#ifdef SE_THOROUGH
  mk(x, page);
#else
  mk(x, page, 1 << FOL | 1 << LEAD);
#endif
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  u64 maxPage = page ? 1 : ~0ull;
  exact(x, *x.rn->ReadyWithoutAccept(), maxPage);
  auto rd = x.rn->GetReady();
  reported(x, *rd);
  se_assert(x.r()->Msgs().empty() && x.r()->GetReadStates().empty(), "what was handed out is gone");
  u64 delivered = maxu(x.r()->GetRaftLog()->Applied(), IsEmptySnap(rd->snapshot) ? 0 : rd->snapshot->metadata().index());
  if (!rd->committed_entries.empty()) delivered = rd->committed_entries.back()->index();
  store(x, *rd);
  // meanwhile
  int ev2 = (int)pick("ev2", R_N);
  rnEvent(x, ev2, "m.");
  size_t msgs = x.r()->Msgs().size(), reads = x.r()->GetReadStates().size();
  auto before = x.r()->GetRaftLog()->AllEntries();
  bool newSnap = x.r()->GetRaftLog()->HasPendingSnapshot() && (IsEmptySnap(rd->snapshot) || x.r()->GetRaftLog()->UnstableSnapshot() != rd->snapshot);
  x.rn->Advance();
  auto l = x.r()->GetRaftLog();
  se_assert(l->Applied() == delivered, "acknowledged is what was delivered");
  auto after = l->AllEntries();
  bool same = after.size() == before.size();
  for (size_t i = 0; i < before.size() && same; i++) same &= sameEntry(*before[i], *after[i]);
  se_assert(same, "acknowledging changes no entry");
  exact(x, *x.rn->ReadyWithoutAccept(), maxPage);
  auto r2 = x.rn->GetReady();
  // what arrived meanwhile is in it, what was handed out before is not
  se_assert(r2->messages.size() == msgs && r2->read_states.size() == reads, "messages and read results that arrived meanwhile, once");
  se_assert(newSnap == !IsEmptySnap(r2->snapshot), "a snapshot is handed out once");
  if (!r2->committed_entries.empty()) {
    u64 from = r2->committed_entries[0]->index();
    se_assert(newSnap ? from > delivered : from == delivered + 1, "delivery goes on where it stopped");
    if (page) se_reach("page");
  }
  bool replaced = false;
  for (auto& e : rd->entries) {
    bool still = false;
    for (auto& y : after) if (y->index() == e->index()) still |= sameEntry(*e, *y);
    replaced |= !still;
  }
  if (!replaced) {
    for (auto& e : r2->entries)
      for (auto& f : rd->entries) se_assert(e->index() != f->index(), "an entry is handed out once for storing");
  } else {
    se_reach("replaced");
  }
  if (newSnap) se_reach("snapshot");
  if (!r2->entries.empty()) se_reach("more");
  reported(x, *r2);
  store(x, *r2);
  // the store now holds the node's log
  auto lastS = x.st->LastIndex(), firstS = x.st->FirstIndex();
  se_assert((std::get<0>(lastS) == l->LastIndex()) & (std::get<0>(firstS) == l->FirstIndex()), "what was handed out for storing is the node's log");
  bool st = true;
  for (auto& e : after) { auto t = x.st->Term(e->index()); st &= std::get<1>(t).IsOK() && std::get<0>(t) == e->term(); }
  se_assert(st, "with its terms");
  x.rn->Advance();
  exact(x, *x.rn->ReadyWithoutAccept(), maxPage);
  if (!page) se_assert(!x.rn->HasReady(), "then nothing is left");
  se_emit(l->Applied()); se_emit(l->Committed()); se_emit(l->LastIndex());
}

// taking the ready that was looked at is the same as getting it
ENTRY accept() {
  RN x;
  mk(x, false, 1 << FOL | 1 << LEAD);
  rnEvent(x, (int)pick("ev1", R_N), "a.");
  auto rd = x.rn->ReadyWithoutAccept();
  x.rn->AcceptReady(rd);
  reported(x, *rd);
  store(x, *rd);
  se_assert(x.r()->Msgs().empty() && x.r()->GetReadStates().empty(), "what was taken is gone");
  x.rn->Advance();
  se_assert(!x.rn->HasReady(), "everything was handed out");
  exact(x, *x.rn->ReadyWithoutAccept(), ~0ull);
  se_reach("accepted");
  se_emit(x.r()->GetRaftLog()->Applied());
}
