HEAD='''#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
#include <vector>
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/raft.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/rawnode.h"
#include "src/storage.h"
using namespace craft;
struct L : Logger {
  L() : Logger(kFatal) {}
  void Log(LogLevel l, const char*, ...) override { if (l == kFatal) { printf("fatal\\n"); exit(1); } }
  void Logv(LogLevel l, const char*, va_list) override { if (l == kFatal) { printf("fatal\\n"); exit(1); } }
};
static std::shared_ptr<Logger> lg() { return std::make_shared<L>(); }
static void check(bool b, const char* what) { if (!b) { printf("FAILED: %s\\n", what); exit(1); } }
static EntryPtr ent(uint64_t i, uint64_t t, const char* d = "x") { auto e = std::make_shared<raftpb::Entry>(); e->set_index(i); e->set_term(t); e->set_data(d); return e; }
static raftpb::ConfChangeSingle chg(raftpb::ConfChangeType t, uint64_t id) { raftpb::ConfChangeSingle s; s.set_type(t); s.set_node_id(id); return s; }
static SnapshotPtr snap(uint64_t i, uint64_t t, raftpb::ConfState cs) { auto s = std::make_shared<raftpb::Snapshot>(); s->mutable_metadata()->set_index(i); s->mutable_metadata()->set_term(t); *s->mutable_metadata()->mutable_conf_state() = cs; return s; }
static raftpb::ConfState voters(std::vector<uint64_t> v, std::vector<uint64_t> o = {}, std::vector<uint64_t> l = {}, std::vector<uint64_t> ln = {}) {
  raftpb::ConfState c;
  for (auto x : v) c.add_voters(x);
  for (auto x : o) c.add_voters_outgoing(x);
  for (auto x : l) c.add_learners(x);
  for (auto x : ln) c.add_learners_next(x);
  return c;
}
struct N { std::shared_ptr<MemoryStorage> st; Raft::Config c; std::unique_ptr<Raft> r; };
// a node at base 10 (term 1) with the given configuration
static N node(raftpb::ConfState cs, uint64_t id = 1, uint64_t term = 1, bool pre = false, bool cq = false) {
  N n;
  n.st = std::make_shared<MemoryStorage>(lg());
  n.st->ApplySnapshot(snap(10, 1, cs));
  raftpb::HardState h;
  h.set_term(term);
  h.set_commit(10);
  n.st->SetHardState(h);
  n.c.id = id; n.c.election_tick = 10; n.c.heartbeat_tick = 1; n.c.storage = n.st; n.c.max_size_per_msg = 1 << 20; n.c.max_inflight_msgs = 16;
  n.c.pre_vote = pre; n.c.check_quorum = cq; n.c.logger = lg();
  return n;
}
static void start(N& n) { n.r = Raft::New(n.c); }
static MsgPtr msg(raftpb::MessageType t, uint64_t from, uint64_t term) { auto m = std::make_shared<raftpb::Message>(); m->set_type(t); m->set_from(from); m->set_to(1); m->set_term(term); return m; }
'''
import os
def spec(name, prop, edits, needs, breaks, demo, flags=''):
    open(f'/tmp/specs/{name}.py','w').write('\n'.join(f'{k}={v!r}' for k,v in dict(name=name,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo,flags=flags).items()))
