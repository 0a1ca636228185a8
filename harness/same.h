// Two nodes compared in everything that can be observed; with the tape of common.h the
// second one gets the state and input of the first.
#pragma once
#include "common.h"
#include "ready.h"

// ---- everything observable about a node ---------------------------------------------
inline bool sameIds(const raftpb::ConfState& a, const raftpb::ConfState& b) { return a == b; }
inline bool sameMessage(const raftpb::Message& a, const raftpb::Message& b) {
  bool ok = ((int)a.type() == (int)b.type()) & (a.to() == b.to()) & (a.from() == b.from()) & (a.term() == b.term()) & (a.logterm() == b.logterm()) &
            (a.index() == b.index()) & (a.commit() == b.commit()) & (a.reject() == b.reject()) & (a.rejecthint() == b.rejecthint());
  if (a.entries_size() != b.entries_size() || a.context() != b.context()) return false;
  for (int i = 0; i < a.entries_size(); i++) ok &= sameEntry(a.entries(i), b.entries(i));
  auto &x = a.snapshot(), &y = b.snapshot();
  return ok & (x.metadata().index() == y.metadata().index()) & (x.metadata().term() == y.metadata().term()) & (x.data() == y.data()) &
         sameIds(x.metadata().conf_state(), y.metadata().conf_state());
}
inline bool sameMsgs(const std::deque<MsgPtr>& a, const std::deque<MsgPtr>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok &= sameMessage(*a[i], *b[i]);
  return ok;
}
template <class V> inline std::deque<MsgPtr> asDeque(const V& v) { return std::deque<MsgPtr>(v.begin(), v.end()); }
inline bool samePr(const PrView& a, const PrView& b) {
  return (a.match == b.match) & (a.next == b.next) & (a.pending == b.pending) & (a.state == b.state) & (a.active == b.active) & (a.probeSent == b.probeSent) & (a.paused == b.paused) &
         (a.full == b.full) & (a.count == b.count) & (a.learner == b.learner);
}
inline void alike(Raft* a, Raft* b) { b->SetRandomizedElectionTimeout(a->RandomizedElectionTimeout()); }
inline decltype(std::declval<Raft>().RandomizedElectionTimeout()) g_drawn;
inline void sameDraw(int k, Raft* r) { if (k == 0) g_drawn = r->RandomizedElectionTimeout(); else r->SetRandomizedElectionTimeout(g_drawn); }
inline void sameNodes(Raft* a, Raft* b) {
  alike(a, b);      // the event may have drawn a new timeout
  Snapv x = snapv(a), y = snapv(b);
  se_assert(x == y, "the same node does the same: its state");
  se_assert(a->IsLearner() == b->IsLearner(), "the same node does the same: its part");
  LogShot p = shot(a), q = shot(b);
  bool ok = (p.bterm == q.bterm) & (p.term.size() == q.term.size());
  if (p.term.size() == q.term.size()) for (size_t i = 0; i < p.term.size(); i++) ok &= (p.term[i] == q.term[i]) & (p.type[i] == q.type[i]) & (p.data[i] == q.data[i]);
  se_assert(ok, "the same node does the same: its log");
  se_assert(sameMsgs(asDeque(a->Msgs()), asDeque(b->Msgs())), "the same node does the same: its messages, in the same order");
  se_assert(sameIds(a->GetTracker().ConfState(), b->GetTracker().ConfState()), "the same node does the same: its configuration");
  auto ma = a->GetTracker().GetProgressMap(), mb = b->GetTracker().GetProgressMap();
  bool same = ma.size() == mb.size();
  for (auto& e : ma) same &= mb.count(e.first) && samePr(view(a, e.first), view(b, e.first));
  se_assert(same, "the same node does the same: what it knows of its peers");
  auto ra = a->GetReadStates(), rb = b->GetReadStates();
  bool reads = ra.size() == rb.size();
  if (reads) for (size_t i = 0; i < ra.size(); i++) reads &= (ra[i].index == rb[i].index) & (ra[i].request_ctx == rb[i].request_ctx);
  se_assert(reads, "the same node does the same: its reads");
}
