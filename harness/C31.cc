//@ bound change lists of at most 2 (thorough: 3) changes with arbitrary kinds and 64-bit node numbers, contexts of at most 2 arbitrary bytes; text of at most 4 (thorough: 5) arbitrary characters and numbers of up to 21 digits
//@ entry codec reach=v1,v2
//@ entry classify reach=leave,joint,explicit,simple
//@ entry text reach=empty,list
//@ entry parse reach=ok,refused
//@ entry number reach=ok,overflow
//@ entry proposal reach=v1,v2
#include "common.h"

#ifdef SE_THOROUGH
static const u64 CH = 3, TXT = 5;
#else
static const u64 CH = 2, TXT = 4;
#endif
static std::string bytes(const char* n, u64 max) {
  u64 k = pick(n, max + 1);
  std::string s(k, 0);
  for (u64 i = 0; i < k; i++) s[i] = (char)se_sym("byte", 8);
  return s;
}
static raftpb::ConfChangeV2 anyV2(u64 max) {
  raftpb::ConfChangeV2 c;
  if (pick("hastrans", 2)) c.set_transition((raftpb::ConfChangeTransition)pick("trans", 3));
  u64 n = pick("n", max + 1);
  for (u64 i = 0; i < n; i++) {
    auto s = c.add_changes();
    s->set_type((raftpb::ConfChangeType)pick("kind", 4));
    s->set_node_id(sym("node"));
  }
  return c;
}
static bool same(const raftpb::ConfChangeV2& a, const raftpb::ConfChangeV2& b) {
  bool ok = (a.transition() == b.transition()) && a.changes_size() == b.changes_size() && a.context() == b.context();
  for (int i = 0; ok && i < a.changes_size(); i++) ok = (a.changes(i).type() == b.changes(i).type()) & (a.changes(i).node_id() == b.changes(i).node_id());
  return ok;
}
ENTRY codec() {
  if (pick("v1", 2)) {
    raftpb::ConfChange c;
    c.set_type((raftpb::ConfChangeType)pick("kind", 4));
    c.set_node_id(sym("node"));
    if (pick("hasid", 2)) c.set_id(sym("id"));
    std::string ctx = bytes("ctx", 2);
    c.set_context(ctx);
    ConfChangeI i(c);
    auto [type, data, ok] = i.Marshal();
    se_assert(ok && type == raftpb::EntryConfChange, "a change of the old kind is encoded as such");
    raftpb::ConfChange d;
    se_assert(d.ParseFromString(data), "what was encoded can be decoded");
    se_assert((d.type() == c.type()) & (d.node_id() == c.node_id()) & (d.id() == c.id()) & (d.context() == ctx), "to the same change");
    auto [v1, is1] = i.AsV1();
    se_assert(is1 && (v1.node_id() == c.node_id()), "it stays a change of the old kind");
    auto v2 = i.AsV2();
    se_assert(v2.changes_size() == 1 && (v2.changes(0).type() == c.type()) & (v2.changes(0).node_id() == c.node_id()) & (v2.transition() == raftpb::ConfChangeTransitionAuto) & (v2.context() == ctx),
              "and means one change with its context");
    se_reach("v1");
  } else {
    auto c = anyV2(CH);
    c.set_context(bytes("ctx", 2));
    ConfChangeI i(c);
    auto [type, data, ok] = i.Marshal();
    se_assert(ok && type == raftpb::EntryConfChangeV2, "a change of the new kind is encoded as such");
    raftpb::ConfChangeV2 d;
    se_assert(d.ParseFromString(data), "what was encoded can be decoded");
    se_assert(same(c, d), "to the same change");
    auto [v1, is1] = i.AsV1();
    se_assert(!is1, "it is no change of the old kind");
    se_assert(same(i.AsV2(), c), "but itself");
    se_reach("v2");
  }
}
ENTRY classify() {
  auto c = anyV2(CH);
  c.set_context(bytes("ctx", 1));
  auto copy = c;
  bool leave = LeaveJoint(copy);
  se_assert(leave == (c.changes_size() == 0 && c.transition() == raftpb::ConfChangeTransitionAuto), "leaving: neither changes nor transition, whatever the context");
  auto [al, joint] = EnterJoint(hlog(), c);
  se_assert(joint == (c.changes_size() > 1 || c.transition() != raftpb::ConfChangeTransitionAuto), "joint: several changes or a named transition");
  if (joint) se_assert(al == (c.transition() != raftpb::ConfChangeTransitionJointExplicit), "left automatically unless explicitly disabled");
  else se_assert(!al, "a simple change is not left");
  se_reach(leave ? "leave" : joint ? (al ? "joint" : "explicit") : "simple");
}
static char letter(int k) { return k == 0 ? 'v' : k == 1 ? 'r' : k == 2 ? 'u' : 'l'; }
// the textual form and back
ENTRY text() {
  se_exact_text = 1;
  u64 n = pick("n", CH + 1);
  static const u64 sample[] = {0, 1, 9, 10, 4294967296ull, 18446744073709551615ull};
  std::vector<raftpb::ConfChangeSingle> v;
  std::string want;
  for (u64 i = 0; i < n; i++) {
    raftpb::ConfChangeSingle s;
    int k = (int)pick("kind", 4);
    u64 id = sample[pick("node", 6)];
    s.set_type((raftpb::ConfChangeType)k);
    s.set_node_id(id);
    v.push_back(s);
    if (i) want += " ";
    want += letter(k);
    want += std::to_string(id);
  }
  std::string t = ConfChangesToString(v);
  se_assert(t == want, "the textual form lists kind and node of each change");
  auto [w, st] = ConfChangesFromString(t);
  se_assert(st.IsOK() && w.size() == v.size(), "it parses back to as many changes");
  bool ok = true;
  for (size_t i = 0; i < w.size() && i < v.size(); i++) ok &= (w[i].type() == v[i].type()) & (w[i].node_id() == v[i].node_id());
  se_assert(ok, "which are the same");
  se_reach(n ? "list" : "empty");
}
// reference: (space* token)* with token = letter digits+
static bool ref(const std::string& s, std::vector<std::pair<int, u64>>& out) {
  size_t i = 0, e = s.size();
  while (i < e && s[i] == ' ') i++;
  while (e > i && s[e - 1] == ' ') e--;
  if (i == e) return true;
  for (;;) {
    if (i >= e) return false;          // a separator needs a token after it
    int k = s[i] == 'v' ? 0 : s[i] == 'r' ? 1 : s[i] == 'u' ? 2 : s[i] == 'l' ? 3 : -1;
    if (k < 0) return false;
    i++;
    if (i >= e || s[i] == ' ') return false;
    u64 x = 0;
    while (i < e && s[i] != ' ') {
      if (s[i] < '0' || s[i] > '9') return false;
      u64 d = s[i] - '0';
      if (x > (UINT64_MAX - d) / 10) return false;
      x = x * 10 + d;
      i++;
    }
    out.push_back({k, x});
    if (i == e) return true;
    i++;
  }
}
static void compare(const std::string& s, bool& good) {
  std::vector<std::pair<int, u64>> want;
  good = ref(s, want);
  auto [w, st] = ConfChangesFromString(s);
  se_assert(st.IsOK() == good, "text is accepted iff it is a list of letters with numbers");
  if (!good) return;
  se_assert(w.size() == want.size(), "one change for each");
  bool ok = true;
  for (size_t i = 0; i < w.size() && i < want.size(); i++) ok &= ((int)w[i].type() == want[i].first) & (w[i].node_id() == want[i].second);
  se_assert(ok, "of the kind and node it names");
}
ENTRY parse() {
  std::string s = bytes("text", TXT);
  for (char c : s) se_assume(c != 0);
  bool good;
  compare(s, good);
  se_reach(good ? "ok" : "refused");
}
ENTRY number() {
  static const char* const head[] = {"1844674407370955161", "184467440737095516159", "9999999999999999999", "00000000000000000000"};
  std::string s = std::string("v") + head[pick("head", 4)];
  char d = (char)se_sym("digit", 8);
  se_assume((d >= '0') & (d <= '9'));
  s += d;
  if (pick("second", 2)) s += " l7";
  bool good;
  compare(s, good);
  se_reach(good ? "ok" : "overflow");
}
// what a leader logs for a change is its encoding
ENTRY proposal() {
  Node n;
  n.o.cfg = C3();
  n.o.baseKind = 0;
  n.o.stable = 0;
  n.o.unstable = 0;
  mkNode(n);
  anyRole(n, 1 << LEAD, 0);
  RawNode rn(std::move(n.r));
  bool v1 = pick("v1", 2);
  raftpb::ConfChange c1;
  raftpb::ConfChangeV2 c2;
  ConfChangeI i;
  if (v1) {
    c1.set_type((raftpb::ConfChangeType)pick("kind", 4));
    c1.set_node_id(sym("node"));
    c1.set_context("x");
    i.SetConfChange(raftpb::ConfChange(c1));
  } else {
    c2 = anyV2(2);
    if (c2.changes_size() == 0) se_stop();
    i.SetConfChange(raftpb::ConfChangeV2(c2));
  }
  auto st = rn.ProposeConfChange(i);
  se_assert(st.IsOK(), "the leader accepts it");
  auto es = rn.GetRaft()->GetRaftLog()->AllEntries();
  auto& e = *es.back();
  if (v1) {
    raftpb::ConfChange d;
    se_assert(e.type() == raftpb::EntryConfChange && d.ParseFromString(e.data()), "logged in the old format");
    se_assert((d.type() == c1.type()) & (d.node_id() == c1.node_id()) & (d.context() == "x"), "unchanged");
    se_reach("v1");
  } else {
    raftpb::ConfChangeV2 d;
    se_assert(e.type() == raftpb::EntryConfChangeV2 && d.ParseFromString(e.data()), "logged in the new format");
    se_assert(same(d, c2), "unchanged");
    se_reach("v2");
  }
}
