//@ bound every window size up to 4 and sizes up to 2^40, brought to every fill and rotation, then 4 (thorough: 6) arbitrary operations with arbitrary ascending indexes and release positions
//@ entry window reach=wrap,full,release,first,reset,clone
//@ entry grow reach=add,free
//@ entry empty reach=noop
#include "common.h"
#include "src/tracker/inflights.h"

struct W {
  std::unique_ptr<Inflights> f;
  std::vector<u64> q;    // what is in flight
  int64_t size;
  u64 top = 0;
};
static void add(W& w) {
  u64 v = sym("index");
  se_assume((v >= w.top) & (v <= BIG));
  w.top = v;
  w.f->Add(v);
  w.q.push_back(v);
}
// how many of the held ones does releasing up to `to` free, branch-free
static u64 notAbove(const W& w, u64 to) {
  u64 c = 0;
  for (u64 x : w.q) c += (u64)(x <= to);
  return c;
}
static void check(W& w) {
  se_assert(w.f->Count() == (int64_t)w.q.size(), "the window holds what was added and not released");
  se_assert(w.f->Full() == ((int64_t)w.q.size() == w.size), "full iff it holds as many as its size");
}
static void release(W& w, u64 to) {
  w.f->FreeLE(to);
  u64 left = w.f->Count();
  se_assert(left <= w.q.size(), "a release adds nothing");
  size_t freed = w.q.size() - left;
  bool ok = true;
  for (size_t i = 0; i < w.q.size(); i++) ok &= (w.q[i] <= to) == (i < freed);
  se_assert(ok, "exactly the entries not above the position are released");
  w.q.erase(w.q.begin(), w.q.begin() + freed);
  if (freed) se_reach("release");
}
// releases one by one: the order and the content of the window
static void drain(W& w) {
  while (!w.q.empty()) {
    u64 x = w.q.front();
    if (x > 0) {
      w.f->FreeLE(x - 1);
      se_assert(w.f->Count() == (int64_t)w.q.size(), "nothing below the oldest");
    }
    release(w, x);
    check(w);
  }
}
static void ops(W& w, int steps) {
  for (int i = 0; i < steps; i++) {
    switch (pick("op", 5)) {
      case 0:
        if ((int64_t)w.q.size() == w.size) { se_reach("full"); se_stop(); }
        add(w);
        break;
      case 1: release(w, symLE("to", BIG)); break;
      case 2: {
        bool was = !w.q.empty();
        // equal neighbours of the oldest go with it
        if (was) for (size_t k = 1; k < w.q.size(); k++) se_assume(w.q[k] != w.q[0]);
        w.f->FreeFirstOne();
        if (was) { w.q.erase(w.q.begin()); se_reach("first"); }
        break;
      }
      case 3: w.f->Reset(); w.q.clear(); se_reach("reset"); break;
      default: {
        auto c = w.f->Clone();
        // the copy is separate: what happens to the original does not reach it
        if (!w.f->Full()) w.f->Add(w.top);
        w.f->Reset();
        w.f = std::move(c);
        se_reach("clone");
      }
    }
    check(w);
  }
}
#ifdef SE_THOROUGH
static const int STEPS = 5;
#else
static const int STEPS = 3;
#endif

ENTRY window() {
  W w;
  w.size = 1 + pick("size", 4);
  w.f = std::make_unique<Inflights>(hlog(), w.size);
  u64 rot = pick("rotation", w.size), fill = pick("fill", w.size + 1);
  if (fill) {
    for (u64 i = 0; i < rot + 1; i++) { add(w); if (i < rot && (int64_t)w.q.size() == w.size) release(w, w.q.front()); }
    while (w.q.size() > 1) release(w, w.q.front());
    while (w.q.size() < fill) add(w);
    if (rot + fill > (u64)w.size) se_reach("wrap");
  } else if (rot) se_stop();
  check(w);
  ops(w, STEPS);
  drain(w);
  check(w);
}
// a large window grows on demand
ENTRY grow() {
  W w;
  w.size = (int64_t)symIn("size", 1, 1ull << 40);
  w.f = std::make_unique<Inflights>(hlog(), w.size);
  for (int i = 0; i < 7; i++) {
    if (pick("what", 3) == 0 && !w.q.empty()) { release(w, w.q[w.q.size() / 2]); se_reach("free"); }
    else {
      if ((int64_t)w.q.size() == w.size) se_stop();
      add(w);
      se_reach("add");
    }
    check(w);
  }
  drain(w);
}
ENTRY empty() {
  W w;
  w.size = (int64_t)symIn("size", 1, 1ull << 40);
  w.f = std::make_unique<Inflights>(hlog(), w.size);
  w.f->FreeFirstOne();
  check(w);
  w.f->FreeLE(sym("to"));
  check(w);
  se_reach("noop");
}
