// A few real nodes behind their interfaces, their stores and the network between them.
#pragma once
#include "ready.h"

struct NetStore : MemoryStorage {
  raftpb::ConfState cs;
  using MemoryStorage::MemoryStorage;
  std::tuple<raftpb::HardState, raftpb::ConfState, Status> InitialState() const override {
    auto t = MemoryStorage::InitialState();
    return std::make_tuple(std::get<0>(t), cs, Status::OK());
  }
};
struct Member {
  u64 id = 0;
  std::shared_ptr<NetStore> st;
  std::unique_ptr<RawNode> rn;
  raftpb::ConfState cs;
  u64 applied = 0;
  std::vector<std::string> reads;
  std::vector<std::string> data;   // what the application was given
  Raft* r() { return rn->GetRaft(); }
  craft::RaftLog* log() { return rn->GetRaft()->GetRaftLog(); }
};
struct Ent { u64 term; char tag; };
struct NetOpt { Cfg cfg = C3(); bool checkQuorum = false, preVote = false; u64 maxMsg = ~0ull, maxInflight = 2, etick = 10, htick = 1; };
// a member just started: log of `e` after (base, bterm), the first `commit` of it committed, all that is applied
inline void boot(Member& m, u64 id, const NetOpt& o, u64 base, u64 bterm, const std::vector<Ent>& e, u64 term, u64 vote, u64 commit) {
  m.id = id;
  m.cs = o.cfg.cs();
  m.st = std::make_shared<NetStore>(hlog());
  m.st->cs = m.cs;
  if (base) {
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(base);
    snap->mutable_metadata()->set_term(bterm);
    *snap->mutable_metadata()->mutable_conf_state() = m.cs;
    m.st->ApplySnapshot(snap);
  }
  EntryPtrs es;
  for (size_t i = 0; i < e.size(); i++) es.push_back(mkEnt(base + 1 + i, e[i].term, e[i].tag));
  m.st->Append(es);
  raftpb::HardState hs;
  hs.set_term(term);
  hs.set_vote(vote);
  hs.set_commit(base + commit);
  m.st->SetHardState(hs);
  Opt op;
  op.id = id;
  op.checkQuorum = o.checkQuorum;
  op.preVote = o.preVote;
  op.maxMsg = o.maxMsg;
  op.maxInflight = o.maxInflight;
  op.etick = o.etick;
  op.htick = o.htick;
  auto c = mkConf(op, m.st);
  c.applied = base + commit;
  m.applied = base + commit;
  m.rn = RawNode::New(c);
}
struct Net {
  std::vector<Member*> ms;
  std::deque<MsgPtr> q;
  int budget = 80;          // messages until it has to be quiet
  u64 snaps = 0;
  bool snapOnConf = false, compact = false, tell = false;
  // what the network does to the n-th message from now on
  enum Kind { LOSE, DUP, LATE };
  struct Fault { u64 at; int kind; };
  std::vector<Fault> faults;
  u64 seen = 0, done = 0;
  static bool oneShot(int ty) { return ty == raftpb::MsgProp || ty == raftpb::MsgReadIndex || ty == raftpb::MsgReadIndexResp || ty == raftpb::MsgTimeoutNow; }
  Member* at(u64 id) { for (auto m : ms) if (m->id == id) return m; return nullptr; }
  // store, send, apply, advance
  void flush(Member& m) {
    bool shots = false;
    while (m.rn->HasReady()) {
      auto rd = m.rn->GetReady();
      if (!IsEmptySnap(rd->snapshot)) { m.st->ApplySnapshot(rd->snapshot); m.applied = rd->snapshot->metadata().index(); m.cs = rd->snapshot->metadata().conf_state(); }
      m.st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) m.st->SetHardState(rd->hard_state);
      for (auto& x : rd->messages) q.push_back(x);
      for (auto& s : rd->read_states) m.reads.push_back(s.request_ctx);
      for (auto& e : rd->committed_entries) {
        se_assert(e->index() == m.applied + 1, "entries are applied one after the other");
        m.applied = e->index();
        bool conf = e->type() != raftpb::EntryNormal;
        if (e->type() == raftpb::EntryNormal) { if (!e->data().empty()) m.data.push_back(e->data()); }
        else if (e->type() == raftpb::EntryConfChange) { raftpb::ConfChange c; c.ParseFromString(e->data()); m.cs = m.rn->ApplyConfChange(ConfChangeI(std::move(c))); }
        else { raftpb::ConfChangeV2 c; c.ParseFromString(e->data()); m.cs = m.rn->ApplyConfChange(ConfChangeI(std::move(c))); }
        shots |= conf & snapOnConf;
      }
      m.rn->Advance();
      if (shots) {
        // the application takes a snapshot with the new membership
        m.st->CreateSnapshot(m.applied, &m.cs, "S");
        if (compact) m.st->Compact(m.applied);
        shots = false;
      }
    }
  }
  void settle() {
    for (auto m : ms) flush(*m);
    while (!q.empty()) {
      se_assert(budget-- > 0, "nodes that have told each other everything fall silent");
      auto x = q.front();
      q.pop_front();
      auto to = at(x->to());
      if (!to) continue;   // unreachable
      bool snap = x->type() == raftpb::MsgSnap;
      u64 from = x->from(), dest = x->to();
      if (!faults.empty() && !oneShot(x->type())) {
        u64 n = seen++;
        bool lost = false;
        for (auto& f : faults) {
          if (f.at != n) continue;
          done++;
          if (f.kind == DUP) { auto y = std::make_shared<raftpb::Message>(*x); q.push_back(y); }
          else if (f.kind == LATE) { q.push_back(x); lost = true; }
          else {
            lost = true;
            if (auto s = at(from)) { if (snap) s->rn->ReportSnapshot(dest, SnapshotStatus::kFailure); else if (tell) s->rn->ReportUnreachable(dest); flush(*s); }
          }
          break;
        }
        if (lost) continue;
      }
      to->rn->Step(x);
      flush(*to);
      if (snap) {
        snaps++;
        // the sender learns how the transfer went
        if (auto s = at(from)) { s->rn->ReportSnapshot(dest, SnapshotStatus::kFinish); flush(*s); }
      }
    }
  }
};
inline bool sameLogs(Member& a, Member& b) {
  auto la = a.log(), lb = b.log();
  u64 last = la->LastIndex();
  if (lb->LastIndex() != last || la->LastTerm() != lb->LastTerm()) return false;
  auto ea = la->AllEntries(), eb = lb->AllEntries();
  size_t n = ea.size() < eb.size() ? ea.size() : eb.size();
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= sameEntry(*ea[ea.size() - 1 - i], *eb[eb.size() - 1 - i]);
  return ok;
}
