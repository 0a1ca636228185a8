//@ bound one event (acknowledgement, rejection with any hint, heartbeat answer, proposal, beat, unreachable report, read, quorum check, transfer) at a leader whose peer of interest is in any replication state; window of 1..4 appends; log of at most 1 stored entry + the leader's empty entry + 1 after an arbitrary base
//@ bound Progress objects on their own: one operation with arbitrary 64-bit positions
//@ assume acknowledged positions lie within the leader's log
//@ entry ack reach=stale,repl,snapdone,snapwait,full,sent
//@ entry reject reach=stale,probe,repl,snap,below
//@ entry heartbeat reach=freed,probe,idle,empty
//@ entry propose reach=paused,sent,waits
//@ entry rest reach=unreach,kept
//@ entry object reach=decr,staledecr,update,probe,snapprobe
#include "leader.h"

struct Exp {
  u64 match, next, pending;
  int state;
  bool sent, active;
  int64_t count, cap;
  bool paused() const { return state == PROBE ? sent : state == REPL ? count >= cap : true; }
};
static Exp expOf(Node& n, u64 id) {
  PrView v = view(n.r.get(), id);
  return Exp{v.match, v.next, v.pending, v.state, v.probeSent, v.active, v.count, (int64_t)n.o.maxInflight};
}
enum { S_NONE, S_EMPTY, S_APP, S_SNAP };
// one attempt to send to the peer, by the rules
static int expSend(Exp& e, const GLog& g, bool evenEmpty) {
  if (e.paused()) return S_NONE;
  if (e.next > g.last()) return evenEmpty ? S_EMPTY : S_NONE;
  if (e.next <= g.base) {
    if (!evenEmpty || !e.active) return S_NONE;
    e.state = SNAP;
    e.pending = g.base;
    e.sent = false;
    e.count = 0;
    return S_SNAP;
  }
  if (e.state == REPL) {
    e.next = g.last() + 1;
    e.count++;
  } else {
    e.sent = true;
  }
  return S_APP;
}
static void sameAs(Node& n, u64 id, const Exp& e, const char* what) {
  PrView v = view(n.r.get(), id);
  se_assert(v.state == e.state, what);
  se_assert((v.match == e.match) & (v.next == e.next) & (v.count == e.count) & (v.probeSent == e.sent), what);
  if (e.state == SNAP) se_assert(v.pending == e.pending, what);
  se_assert(v.active == e.active, "recent activity is noted");
  se_assert(v.next > v.match, "the next position lies beyond the acknowledged one");
  se_assert(v.count <= (int64_t)n.o.maxInflight, "the window is not exceeded");
  se_assert(v.paused == e.paused(), "pausing follows the state");
}
static std::vector<int> sends(Node& n, u64 id) {
  std::vector<int> k;
  for (auto& m : n->Msgs()) if (m->to() == id) {
    if (m->type() == 3) k.push_back(m->entries_size() ? S_APP : S_EMPTY);
    else if (m->type() == 7) k.push_back(S_SNAP);
  }
  return k;
}
static std::vector<int> want(std::initializer_list<int> l) {
  std::vector<int> k;
  for (int x : l) if (x != S_NONE) k.push_back(x);
  return k;
}
static void mk(Lead& x, int own = -1) {
  LeadCfg c;
  c.cfg = C3();
  c.own = own;
#ifdef SE_THOROUGH
  if (pick("cfg", 2)) c.cfg = C2L(), c.peer = 2 + pick("peer", 2);
#endif
  static const u64 caps[] = {1, 2, 4};
  x.n.o.maxInflight = caps[pick("cap", 3)];
  mkLead(x, c);
}

ENTRY ack() {
  Lead x;
  mk(x);
  Node& n = x.n;
  LArg a;
  Exp e = expOf(n, 2);
  Inflights inf(*n->GetTracker().GetProgress(2)->GetInflights());
  leadEvent(x, E_ACK, a);
  bool advanced = n->GetRaftLog()->Committed() > x.commit;
  e.active = true;
  auto k = sends(n, 2);
  if (a.index <= e.match) {
    sameAs(n, 2, e, "an outdated acknowledgement changes nothing");
    se_assert(k.empty(), "and causes no message");
    se_reach("stale");
  } else {
    bool was = e.paused();
    e.match = a.index;
    e.next = maxu(e.next, a.index + 1);
    if (e.state == PROBE) { e.state = REPL; e.next = a.index + 1; e.count = 0; e.sent = false; }
    else if (e.state == SNAP) {
      e.sent = false;
      if (a.index >= e.pending) { e.state = REPL; e.next = a.index + 1; e.count = 0; e.pending = 0; se_reach("snapdone"); }
      else se_reach("snapwait");
    } else {
      inf.FreeLE(a.index);
      e.count = inf.Count();
      e.sent = false;
    }
    int s1 = S_NONE;
    if (advanced || was) s1 = expSend(e, n.g, true);
    int s2 = expSend(e, n.g, false);
    se_assert(k == want({s1, s2}), "what can be sent is sent, once");
    if (s1 == S_APP || s2 == S_APP) se_reach("sent");
    sameAs(n, 2, e, "an acknowledgement moves the peer on");
    if (e.state == REPL) se_assert((e.next == n.g.last() + 1) | (e.count >= e.cap), "nothing is held back unless the window is full");
    if (e.state == REPL) se_reach("repl");
    if (e.state == REPL && e.count >= e.cap) se_reach("full");
  }
  PrView w = x.pv.at(3), w2 = view(n.r.get(), 3);
  se_assert((w.match == w2.match) & (w.next == w2.next) & (w.state == w2.state), "other peers keep their progress");
  emitNode(n.r.get());
}

ENTRY reject() {
  Lead x;
  mk(x, (int)pick("own", 2));
  Node& n = x.n;
  LArg a;
  Exp e = expOf(n, 2);
  leadEvent(x, E_REJ, a);
  e.active = true;
  auto k = sends(n, 2);
  bool stale = e.state == REPL ? a.index <= e.match : a.index != e.next - 1;
  if (stale) {
    sameAs(n, 2, e, "a stale rejection changes nothing");
    se_assert(k.empty(), "and causes no message");
    se_reach("stale");
  } else if (e.state == SNAP) {
    PrView v = view(n.r.get(), 2);
    se_assert((v.state == SNAP) & (v.match == e.match) & (v.pending == e.pending) & (v.next > v.match), "a rejection does not end a snapshot transfer");
    se_assert(k.empty(), "nothing is sent meanwhile");
    se_reach("snap");
  } else {
    // the largest own position not beyond the hint whose term does not exceed the hint's
    u64 best = a.hint;
    if (a.hterm > 0 && a.hint >= n.g.base) {
      best = n.g.base - 1;
      if (n.g.bterm <= a.hterm) best = n.g.base;
      for (size_t i = 0; i < n.g.e.size(); i++) {
        u64 p = n.g.base + 1 + i;
        if (p <= a.hint && n.g.e[i].term <= a.hterm) best = p;
      }
    }
    if (e.state == REPL) { e.next = e.match + 1; se_reach("repl"); }
    else { e.next = maxu(minu(a.index, best + 1), e.match + 1); se_reach("probe"); }
    e.state = PROBE;
    e.sent = false;
    e.count = 0;
    int s = expSend(e, n.g, true);
    if (s == S_SNAP) se_reach("below");
    se_assert(k == want({s}), "one probe follows");
    sameAs(n, 2, e, "a rejection makes the leader probe at the best position the hint allows");
  }
  se_assert(n->GetRaftLog()->Committed() == x.commit, "nothing is committed");
  emitNode(n.r.get());
}

ENTRY heartbeat() {
  Lead x;
  mk(x);
  Node& n = x.n;
  LArg a;
  if (pick("ctx", 2)) a.ctx = "?";
  Exp e = expOf(n, 2);
  leadEvent(x, E_HB, a);
  e.active = true;
  e.sent = false;
  if (e.state == REPL && e.count >= e.cap) { e.count--; se_reach("freed"); }
  int s = e.match < n.g.last() ? expSend(e, n.g, true) : S_NONE;
  if (e.state == PROBE && s == S_APP) se_reach("probe");
  se_reach(s == S_NONE ? "idle" : s == S_EMPTY ? "empty" : "sent");
  se_assert(sends(n, 2) == want({s}), "at most one append per heartbeat answer");
  sameAs(n, 2, e, "a heartbeat answer resumes a waiting peer");
  emitNode(n.r.get());
}

ENTRY propose() {
  Lead x;
  mk(x);
  Node& n = x.n;
  LArg a;
  Exp e = expOf(n, 2), f = expOf(n, 3);
  bool paused = e.paused();
  leadEvent(x, E_PROP, a);
  int s = expSend(e, n.g, true);
  se_assert(sends(n, 2) == want({s}), "a peer that is ready gets the new entries once, a paused one nothing");
  sameAs(n, 2, e, "progress after a proposal");
  se_assert(sends(n, 3).empty(), "a probe is outstanding: nothing more is sent");
  sameAs(n, 3, f, "a waiting peer keeps waiting");
  se_reach(paused ? "paused" : s == S_NONE ? "waits" : "sent");
  PrView me = view(n.r.get(), 1);
  se_assert((me.match == n.g.last()) & (me.next == n.g.last() + 1), "the leader acknowledges its own entries");
  emitNode(n.r.get());
}

ENTRY rest() {
  Lead x;
  mk(x);
  Node& n = x.n;
  LArg a;
  Exp e = expOf(n, 2);
  static const int evs[] = {E_BEAT, E_UNREACH, E_READ, E_CQ, E_XFER};
  int ev = evs[pick("event", 5)];
  leadEvent(x, ev, a);
  if (n->State() != kLeader) return;
  int s = S_NONE;
  if (ev == E_UNREACH && e.state == REPL) {
    e.state = PROBE; e.next = e.match + 1; e.count = 0; e.sent = false;
    se_reach("unreach");
  } else {
    se_reach("kept");
  }
  if (ev == E_CQ) e.active = false;
  if (ev == E_XFER && e.match < n.g.last()) s = expSend(e, n.g, true);
  se_assert(sends(n, 2) == want({s}), "no append without a reason");
  sameAs(n, 2, e, "only the documented events move the peer");
  emitNode(n.r.get());
}

// the progress object itself, with arbitrary positions
ENTRY object() {
  g_fatal = FATAL_BAD;
  u64 match = symLE("match", BIG), next = symIn("next", 1, BIG);
  se_assume(next > match);
  Progress p(hlog(), next, match, 4, symB("learner"), symB("active"));
  u64 st = pick("state", 3);
  u64 pending = 0;
  if (st == REPL) { p.BecomeReplicate(); p.SetNext(next); }
  if (st == SNAP) { pending = symLE("pending", BIG); p.BecomeSnapshot(pending); }
  bool sent = symB("sent");
  if (st == PROBE) p.SetProbeSent(sent);
  u64 arg = symLE("arg", BIG), hint = symLE("hint", BIG);
  switch (pick("op", 5)) {
    case 0: {
      bool up = p.MaybeUpdate(arg);
      se_assert(up == (arg > match), "an update is one that acknowledges more");
      se_assert((p.Match() == maxu(match, arg)) & (p.Next() == maxu(next, arg + 1)), "match and next only grow");
      se_reach("update");
      break;
    }
    case 1: {
      bool d = p.MaybeDecrTo(arg, hint);
      bool stale = st == REPL ? arg <= match : arg != next - 1;
      se_assert(d == !stale, "a rejection is stale unless it refuses what is outstanding");
      if (stale) { se_assert((p.Next() == next) & (p.Match() == match), "stale rejections change nothing"); se_reach("staledecr"); }
      else {
        se_assert(p.Match() == match, "match stays");
        if (st == REPL) se_assert(p.Next() == match + 1, "a replicating peer falls back to what it acknowledged");
        else se_assert(p.Next() == maxu(minu(arg, hint + 1), match + 1), "probing goes on at the hint");
        if (st == PROBE) se_assert(!p.IsPaused(), "and at once");
        se_reach("decr");
      }
      break;
    }
    case 2:
      p.BecomeProbe();
      se_assert((p.Next() == (st == SNAP ? maxu(match, pending) + 1 : match + 1)) & (p.Match() == match) & !p.IsPaused(), "probing starts behind what was acknowledged or sent as a snapshot");
      se_reach(st == SNAP ? "snapprobe" : "probe");
      break;
    case 3:
      p.BecomeReplicate();
      se_assert((p.Next() == match + 1) & (p.Match() == match) & !p.IsPaused() & (p.GetInflights()->Count() == 0), "replication starts behind what was acknowledged");
      break;
    default:
      p.BecomeSnapshot(arg);
      se_assert((p.PendingSnapshot() == arg) & (p.Match() == match) & p.IsPaused() & (p.GetInflights()->Count() == 0), "a snapshot transfer pauses");
  }
  se_assert((p.Next() >= 1) & (p.Next() > p.Match()), "next lies beyond match");
  se_emit(p.Match()); se_emit(p.Next()); se_emit((u64)p.State());
}
