//@ bound majority configurations of at most 7 voters (thorough: 8, and 9 with everybody heard from) with arbitrary 64-bit acknowledgements; votes of at most 7 voters (thorough 9); majority configurations of 8 to 12 (thorough: 15) voters whose acknowledgements but one strictly ascend or descend with the id; joint configurations of every two subsets of 4 voters, and fixed larger ones
//@ entry committed reach=empty,one,seven
//@ entry large reach=odd,even,silent
//@ entry votes reach=won,lost,pending
//@ entry joint reach=left,right
//@ entry jointvotes reach=won,lost,pending
//@ entry tracker reach=active,inactive
#include "common.h"
#include "src/quorum/joint.h"
#include "src/tracker/tracker.h"

#ifdef SE_THOROUGH
static const u64 NMAX = 8, VMAX = 9;
#else
static const u64 NMAX = 7, VMAX = 7;
#endif
struct Acks : AckedIndexer {
  std::map<u64, std::pair<u64, bool>> m;
  std::tuple<Index, bool> AckedIndex(uint64_t id) const override {
    auto it = m.find(id);
    if (it == m.end()) return std::make_tuple((Index)0, false);
    return std::make_tuple((Index)it->second.first, it->second.second);
  }
  u64 at(u64 id) const { auto& p = m.at(id); return p.second ? p.first : 0; }
};
static void add(Acks& a, u64 id, bool heard) {
  u64 v = sym("ack");
  bool h = heard ? true : symB("heard");
  a.m[id] = {v, h};
}
// r is the largest position acknowledged by a majority of s
static bool largest(const std::vector<u64>& s, u64 r, const std::map<u64, u64>& v) {
  bool ok = majority(s, [&](u64 y) { return v.at(y) >= r; });
  for (u64 x : s) {
    u64 p = v.at(x);
    ok &= (p <= r) | !majority(s, [&](u64 y) { return v.at(y) >= p; });
  }
  return ok;
}
static std::set<u64> S(const std::vector<u64>& v) { return std::set<u64>(v.begin(), v.end()); }

ENTRY committed() {
  u64 n = pick("n", NMAX + 1
#ifdef SE_THOROUGH
    + 1
#endif
  );
  std::vector<u64> s;
  Acks a;
  for (u64 i = 0; i < n; i++) { s.push_back(i * 3 + 1); add(a, i * 3 + 1, n > NMAX); }
  if (n == 3) a.m[2] = {sym("ack"), true};   // somebody else's
  MajorityConfig c(S(s));
  u64 r = c.CommittedIndex(a);
  if (n == 0) { se_assert(r == UINT64_MAX, "nobody: unbounded"); se_reach("empty"); return; }
  std::map<u64, u64> v;
  for (u64 x : s) {
    // the path has decided who was heard
    v[x] = se_is_symbolic(a.m[x].second) ? (a.m[x].second ? a.m[x].first : 0) : a.at(x);
  }
  se_assert(largest(s, r, v), "the largest position acknowledged by a strict majority");
  if (n == 1) se_reach("one");
  if (n == 7) se_reach("seven");
  se_emit(r);
}

// more voters than fit on the stack
#ifdef SE_THOROUGH
static const u64 LMAX = 15;
#else
static const u64 LMAX = 12;
#endif
ENTRY large() {
  u64 n = 8 + pick("n", LMAX - 7), odd = pick("which", n), silent = pick("silent", 3);
  bool up = pick("up", 2);
  std::vector<u64> s;
  Acks a;
  std::map<u64, u64> v;
  u64 last = up ? 0 : ~0ull;
  for (u64 i = 0; i < n; i++) {
    u64 id = 5 * i + 2, x;
    if (i == odd) x = sym("any");
    else if (up) { x = sym("ack"); se_assume(x > last); last = x; }
    else { x = sym("ack"); se_assume(x < last); last = x; }
    bool h = i != odd ? true : silent != 1;
    if (silent == 2 && i == (odd + 3) % n) h = false;
    s.push_back(id);
    a.m[id] = {x, h};
    v[id] = h ? x : 0;
  }
  u64 r = MajorityConfig(S(s)).CommittedIndex(a);
  se_assert(majority(s, [&](u64 y) { return v[y] >= r; }) & !majority(s, [&](u64 y) { return v[y] > r; }), "the largest position acknowledged by a strict majority");
  se_reach(n % 2 ? "odd" : "even");
  if (silent) se_reach("silent");
  se_emit(r);
}

static void lab(int r) { se_reach(r == kVoteWon ? "won" : r == kVoteLost ? "lost" : "pending"); }

ENTRY votes() {
  u64 n = pick("n", VMAX + 1);
  std::vector<u64> s;
  for (u64 i = 0; i < n; i++) s.push_back(i + 1);
  std::map<u64, bool> b;
  // symbolic ballots, presence chosen
  u64 present = 0;
  for (u64 x : s) if (pick("in", 2)) { b[x] = symB("yes"); present++; }
  if (n == 3) b[77] = symB("yes");
  int r = MajorityConfig(S(s)).VoteResult(b);
  bool won = majority(s, [&](u64 x) { return b.count(x) && b[x]; });
  bool open = majority(s, [&](u64 x) { return !b.count(x) || b[x]; });
  se_assert((r == kVoteWon) == won, "won iff a strict majority said yes");
  se_assert((r == kVoteLost) == !open, "lost iff a majority can no longer be reached");
  se_assert(r == kVoteWon || r == kVoteLost || r == kVotePending, "or pending");
  lab(r);
  se_emit(r);
}

static void halves(std::vector<u64>& a, std::vector<u64>& b) {
  u64 k = pick("family", 3);
  if (k == 0) {
    u64 m = pick("left", 16), w = pick("right", 16);
    for (u64 i = 0; i < 4; i++) { if (m >> i & 1) a.push_back(i + 1); if (w >> i & 1) b.push_back(i + 1); }
  } else if (k == 1) { a = {1, 2, 3}; b = {4, 5}; }
  else { a = {1, 2, 3, 4, 5}; b = {1, 6}; }
}
ENTRY joint() {
  std::vector<u64> a, b;
  halves(a, b);
  Acks k;
  for (u64 x : a) if (!k.m.count(x)) add(k, x, true);
  for (u64 x : b) if (!k.m.count(x)) add(k, x, x != 4);
  JointConfig c(S(a), S(b));
  u64 l = MajorityConfig(S(a)).CommittedIndex(k), r = MajorityConfig(S(b)).CommittedIndex(k);
  u64 j = c.CommittedIndex(k);
  std::map<u64, u64> v;
  for (auto& p : k.m) v[p.first] = p.second.second ? p.second.first : 0;
  // the largest position that a majority of either half acknowledged
  bool ok = (a.empty() && b.empty()) ? j == UINT64_MAX : true;
  auto at = [&](u64 p) { return majority(a, [&](u64 y) { return v[y] >= p; }) & majority(b, [&](u64 y) { return v[y] >= p; }); };
  if (!(a.empty() && b.empty())) {
    ok &= at(j);
    for (auto& p : v) ok &= (p.second <= j) | !at(p.second);
  }
  se_assert(ok, "the largest position both halves committed");
  se_assert(j == minu(l, r), "which is the smaller of the halves");
  if (j == l) se_reach("left"); else se_reach("right");
  se_emit(j);
}
ENTRY jointvotes() {
  std::vector<u64> a, b;
  halves(a, b);
  std::set<u64> all = S(a);
  all.insert(b.begin(), b.end());
  std::map<u64, bool> m;
  for (u64 x : all) if (pick("in", 2)) m[x] = symB("yes");
  int r = JointConfig(S(a), S(b)).VoteResult(m);
  auto yes = [&](u64 x) { return m.count(x) && m[x]; };
  auto may = [&](u64 x) { return !m.count(x) || m[x]; };
  bool won = majority(a, yes) & majority(b, yes);
  bool open = majority(a, may) & majority(b, may);
  se_assert((r == kVoteWon) == won, "jointly won iff both halves are won");
  se_assert((r == kVoteLost) == !open, "jointly lost iff one half is lost");
  se_assert(r == kVoteWon || r == kVoteLost || r == kVotePending, "or pending");
  lab(r);
  se_emit(r);
}

// the same arithmetic over the progress of a leader
ENTRY tracker() {
  u64 k = pick("cfg", 5);
  Cfg c = k == 0 ? C3() : k == 1 ? CJ2() : k == 2 ? C2L() : k == 3 ? Cfg{{1, 2, 3, 4}, {}, {5}, {}} : Cfg{{1, 2}, {2, 3, 4}, {5}, {3}};
  Node n;
  n.o.cfg = c;
  n.o.baseKind = 1;
  n.o.stable = 0;
  n.o.unstable = 0;
  mkNode(n);
  auto& t = n->GetTracker();
  std::map<u64, u64> match;
  std::map<u64, bool> act;
  for (u64 id : c.all()) {
    auto p = t.GetProgress(id);
    u64 m = sym("match");
    bool a = symB("active");
    p->SetMatch(m);
    p->SetRecentActive(a);
    match[id] = m;
    act[id] = a;
  }
  u64 r = t.Committed();
  auto at = [&](u64 p) { return ackedAt(c, p, [&](u64 y) { return match[y]; }); };
  bool ok = at(r);
  for (u64 x : c.voters()) ok &= (match[x] <= r) | !at(match[x]);
  se_assert(ok, "the position committed by the configuration's voters alone");
  bool q = t.QuorumActive();
  se_assert(q == quorum(c, [&](u64 y) { return act[y]; }), "a quorum is active iff a majority of the voters of each half is");
  se_reach(q ? "active" : "inactive");
  se_emit(r);
  se_emit(q);
}
