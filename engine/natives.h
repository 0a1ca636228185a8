// Native models of the functions that stay outside the encoded program:
// harness intrinsics, the allocator, mem*/str*, locks, formatting, abort.
#pragma once

#define NARGS(ex, s, ci) Val* R_ = &(s).regs[(s).frames.back().base]; (void)R_
#define ARG(i) ((i) < ci.args.size() ? ex.rd(&s.regs[s.frames.back().base], ci.args[i]) : C(0))
#define RET(x) (s.regs[s.frames.back().base + dst] = (x))

static Expr* condOf(Ex& ex, CallInfo& ci, unsigned i, Val v) {
  unsigned w = ci.argw[i];
  if (w == 1) return ex.toE(v, 1);
  return ex.P.Not(ex.P.Eq(ex.toE(v, w), ex.P.c(w, 0)));
}

// n bytes compared; result like memcmp
static Val cmpBytes(Ex& ex, State& s, uint64_t a, uint64_t b, uint64_t n) {
  ExprPool& P = ex.P;
  uint64_t i = 0;
  // concrete prefix
  for (; i < n; i++) {
    Val x = ex.byteVal(s, a + i), y = ex.byteVal(s, b + i);
    if (x.e || y.e) break;
    if (x.v != y.v) return C((uint32_t)((int)x.v - (int)y.v));
  }
  if (i == n) return C(0);
  Expr* r = P.c(32, 0);
  for (uint64_t k = n; k-- > i;) {
    Val x = ex.byteVal(s, a + k), y = ex.byteVal(s, b + k);
    Expr *xe = ex.toE(x, 8), *ye = ex.toE(y, 8);
    r = P.Ite(P.Eq(xe, ye), r, P.Sub(P.ZExt(xe, 32), P.ZExt(ye, 32)));
  }
  return Ex::fromE(r);
}

static std::string formatC(Ex& ex, State& s, const std::string& fmt, std::function<Val(unsigned)> next) {
  std::string out;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    size_t j = i + 1;
    if (j < fmt.size() && fmt[j] == '%') { out += '%'; i = j; continue; }
    std::string spec = "%";
    while (j < fmt.size() && strchr("-+ #0123456789.*", fmt[j])) {
      if (fmt[j] == '*') { Val v = next(32); spec += std::to_string((int)(v.e ? 0 : v.v)); }
      else spec += fmt[j];
      j++;
    }
    int l = 0;
    while (j < fmt.size() && strchr("lhzjtL", fmt[j])) { if (fmt[j] == 'l' || fmt[j] == 'z' || fmt[j] == 'j' || fmt[j] == 't') l++; j++; }
    if (j >= fmt.size()) break;
    char c = fmt[j];
    i = j;
    if (c == 's') {
      Val v = next(64);
      uint64_t p = ex.addrOf(s, v);
      std::string t = p ? ex.cstr(s, p) : "(null)";
      std::vector<char> buf(t.size() + 256);
      snprintf(buf.data(), buf.size(), (spec + "s").c_str(), t.c_str());
      out += buf.data();
    } else if (strchr("diuxXoc", c)) {
      Val v = next(l ? 64 : 32);
      if (v.e) { out += "?"; continue; }
      char buf[512];
      if (l) snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (long long)v.v);
      else snprintf(buf, sizeof buf, (spec + c).c_str(), (int)v.v);
      out += buf;
    } else if (c == 'p') {
      next(64);
      out += "0xptr";
    } else {
      next(64);
      out += "?";
    }
  }
  return out;
}
static std::string formatVa(Ex& ex, State& s, const std::string& fmt, uint64_t valist) {
  return formatC(ex, s, fmt, [&](unsigned w) {
    uint64_t p = ex.load(s, valist + 8, 8, 64).v;
    Val v = ex.load(s, p, 8, 64);
    ex.store(s, valist + 8, 8, C(p + 8));
    if (w < 64) v = Ex::fromE(ex.P.Extract(ex.toE(v, 64), 0, w));
    return v;
  });
}
static uint64_t putStr(Ex& ex, State& s, uint64_t dst, uint64_t n, const std::string& t) {
  if (n) {
    uint64_t k = std::min<uint64_t>(t.size(), n - 1);
    for (uint64_t i = 0; i < k; i++) ex.store(s, dst + i, 1, C((uint8_t)t[i]));
    ex.store(s, dst + k, 1, C(0));
  }
  return t.size();
}

static void doAlloc(Ex& ex, State& s, CallInfo& ci, int32_t dst, Val sz, bool zero, uint8_t kind) {
  uint64_t n = ex.addrOf(s, sz);
  if (n > (1u << 26)) ex.violation(s, "memory", "allocation of an absurd size");
  RET(C(ex.newObj(s, n, kind, !zero)));
}
static void doFree(Ex& ex, State& s, uint64_t p, uint8_t kind, const char* what) {
  if (s.race && p) if (Obj* q = s.mem.get(p >> 32)) ex.raceAccess(s, p, q->size, true);
  if (p == 0) return;
  Obj* o = s.mem.get(p >> 32);
  if (!o) ex.violation(s, "memory", std::string("double or invalid ") + what);
  if ((uint32_t)p != 0 || (o->kind != 0 && o->kind != 4)) ex.violation(s, "memory", std::string("invalid ") + what);
  if (o->kind != kind) ex.violation(s, "memory", std::string("mismatched ") + what);
  s.mem.set(p >> 32, nullptr);
}

inline void Ex::installNatives() {
  auto& N = natives;
#define NAT(name) N[name] = [](Ex& ex, State& s, CallInfo& ci, int32_t dst)
  NAT("se_sym") {
    std::string nm = ex.cstr(s, ARG(0).v);
    unsigned w = ARG(1).v;
    uint32_t id = ex.intern(nm);
    uint16_t occ = 0;
    bool found = false;
    for (auto& x : s.nameCount) if (x.first == id) { occ = ++x.second; found = true; break; }
    if (!found) s.nameCount.push_back({id, 0});
    uint64_t key = ((uint64_t)id << 24) | ((uint64_t)w << 16) | occ;
    auto it = ex.symVar.find(key);
    Expr* e;
    if (it != ex.symVar.end()) e = it->second;
    else { e = ex.P.var(nm, w); ex.symVar[key] = e; }
    s.syms.push_back({id, e});
    RET(Ex::fromE(ex.P.ZExt(e, 64)));
  };
  NAT("se_choose") {
    std::string nm = ex.cstr(s, ARG(0).v);
    uint64_t n = ex.concretizeVal(s, ARG(1), 64);
    uint32_t id = ex.intern(nm);
    if (n > 4096) ex.error(s, "se_choose of too many");
    if (n == 0) ex.error(s, "se_choose of nothing");
    for (uint64_t k = n; k-- > 1;) {
      State* c = ex.clone(s);
      c->syms.push_back({id, ex.P.c(32, k)});
      Frame& fr = c->frames.back();
      c->regs[fr.base + dst] = C(k);
      if (ci.normal >= 0) ex.takeEdge(*c, fr, ci.normal); else fr.pc++;
      ex.nForks++;
      ex.pending.push_back(c);
    }
    s.syms.push_back({id, ex.P.c(32, 0)});
    RET(C(0));
    ex.checkStop();
    ex.donate();
  };
  NAT("se_assume") {
    Expr* c = condOf(ex, ci, 0, ARG(0));
    if (ExprPool::isTrue(c)) return;
    ex.flushAsserts(s);
    ex.assume(s, c);
  };
  NAT("se_assert") {
    Expr* c = condOf(ex, ci, 0, ARG(0));
    ex.nAsserts++;
    ex.entryAsserts[s.entry]++;
    if (ExprPool::isTrue(c)) return;
    uint32_t m = ex.intern(ex.cstr(s, ARG(1).v));
    if (!ex.P.eval(c, s.model)) {
      ex.addViolation(s, "assert", ex.names[m], ex.loc(s), s.model);
      ex.assume(s, c);
      return;
    }
    for (auto* x : s.asserts) if (x == c) return;
    s.asserts.push_back(c);
    s.assertInfo.push_back({m, ex.intern(ex.loc(s))});
  };
  NAT("se_reach") {
    ex.reached.insert(ex.entries[s.entry] + ":" + ex.cstr(s, ARG(0).v));
  };
  NAT("se_emit") { s.emits.push_back(ARG(0)); };
  NAT("se_stop") { ex.flushAsserts(s); ex.nPaths++; ex.entryPaths[s.entry]++; ex.sample(s); throw PathEnd(); };
  NAT("se_fatal") { ex.violation(s, "fatal", ex.cstr(s, ARG(0).v)); };
  NAT("se_concretize") { RET(C(ex.concretizeVal(s, ARG(0), 64))); };
  NAT("se_is_symbolic") { RET(C(ARG(0).e != nullptr)); };
  NAT("se_thread") { ex.raceThread(s, ex.addrOf(s, ARG(0))); };
  NAT("se_sync") { ex.raceSync(s, ex.addrOf(s, ARG(0)), ARG(1).v); };
  NAT("se_native") { RET(C(0)); };
  NAT("se_print") { fprintf(stderr, "%s", ex.cstr(s, ARG(0).v).c_str()); if (!ARG(1).e) fprintf(stderr, " %lu\n", ARG(1).v); else fprintf(stderr, " sym(%lu)\n", ex.P.eval(ARG(1).e, s.model)); };

  // allocation
  auto opnew = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) { doAlloc(ex, s, ci, dst, ARG(0), false, 0); };
  for (const char* n : {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) N[n] = opnew;
  auto opdel = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) { doFree(ex, s, ex.addrOf(s, ARG(0)), 0, "delete"); };
  for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) N[n] = opdel;
  NAT("malloc") { doAlloc(ex, s, ci, dst, ARG(0), false, 4); };
  NAT("calloc") { doAlloc(ex, s, ci, dst, Ex::fromE(ex.P.Mul(ex.toE(ARG(0), 64), ex.toE(ARG(1), 64))), true, 4); };
  NAT("free") { doFree(ex, s, ex.addrOf(s, ARG(0)), 4, "free"); };

  // memory
  auto cpy = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) {
    uint64_t d = ex.addrOf(s, ARG(0)), sr = ex.addrOf(s, ARG(1)), n = ex.addrOf(s, ARG(2));
    ex.copyBytes(s, d, sr, n);
    if (ci.retSlots) RET(C(d));
  };
  for (const char* n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "llvm.memmove.p0.p0.i32"}) N[n] = cpy;
  auto set = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) {
    uint64_t d = ex.addrOf(s, ARG(0)), n = ex.addrOf(s, ARG(2));
    Val b = ARG(1);
    if (b.e && b.e->w > 8) b = Ex::fromE(ex.P.Extract(b.e, 0, 8));
    if (n) ex.access(s, d, n, true, "write");
    for (uint64_t i = 0; i < n; i++) ex.store(s, d + i, 1, b.e ? b : C(b.v & 255));
    if (ci.retSlots) RET(C(d));
  };
  for (const char* n : {"memset", "llvm.memset.p0.i64", "llvm.memset.inline.p0.i64", "llvm.memset.p0.i32"}) N[n] = set;
  auto cmp = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) {
    uint64_t n = ex.addrOf(s, ARG(2));
    uint64_t a = ex.addrOf(s, ARG(0)), b = ex.addrOf(s, ARG(1));
    RET(cmpBytes(ex, s, a, b, n));
  };
  N["memcmp"] = cmp;
  N["bcmp"] = cmp;
  NAT("strlen") {
    uint64_t a = ex.addrOf(s, ARG(0)), i = 0;
    for (;; i++) {
      Val b = ex.byteVal(s, a + i);
      if (!b.e) { if (!b.v) break; continue; }
      if (ex.branch(s, ex.P.Eq(b.e, ex.P.c(8, 0)))) break;
    }
    RET(C(i));
  };
  auto strcmpN = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) {
    uint64_t a = ex.addrOf(s, ARG(0)), b = ex.addrOf(s, ARG(1));
    uint64_t n = ci.args.size() > 2 ? ex.addrOf(s, ARG(2)) : ~0ull;
    for (uint64_t i = 0; i < n; i++) {
      Val x = ex.byteVal(s, a + i), y = ex.byteVal(s, b + i);
      uint64_t xv = x.e ? ex.concretizeVal(s, x, 8) : x.v, yv = y.e ? ex.concretizeVal(s, y, 8) : y.v;
      if (xv != yv) { RET(C((uint32_t)((int)xv - (int)yv))); return; }
      if (!xv) break;
    }
    RET(C(0));
  };
  N["strcmp"] = strcmpN;
  N["strncmp"] = strcmpN;
  NAT("memchr") {
    uint64_t a = ex.addrOf(s, ARG(0)), n = ex.addrOf(s, ARG(2));
    Expr* c = ex.P.Extract(ex.toE(ARG(1), 32), 0, 8);
    for (uint64_t i = 0; i < n; i++)
      if (ex.branch(s, ex.P.Eq(ex.toE(ex.byteVal(s, a + i), 8), c))) { RET(C(a + i)); return; }
    RET(C(0));
  };
  auto schr = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) {
    uint64_t a = ex.addrOf(s, ARG(0));
    Expr* c = ex.P.Extract(ex.toE(ARG(1), 32), 0, 8);
    for (uint64_t i = 0;; i++) {
      Expr* b = ex.toE(ex.byteVal(s, a + i), 8);
      if (ex.branch(s, ex.P.Eq(b, c))) { RET(C(a + i)); return; }
      if (ex.branch(s, ex.P.Eq(b, ex.P.c(8, 0)))) { RET(C(0)); return; }
    }
  };
  N["strchr"] = schr;
  N["index"] = schr;
  NAT("strstr") {
    std::string h = ex.cstr(s, ex.addrOf(s, ARG(0))), n = ex.cstr(s, ex.addrOf(s, ARG(1)));
    size_t k = h.find(n);
    RET(C(k == std::string::npos ? 0 : ARG(0).v + k));
  };
  NAT("strcpy") {
    uint64_t d = ex.addrOf(s, ARG(0));
    std::string t = ex.cstr(s, ex.addrOf(s, ARG(1)));
    putStr(ex, s, d, t.size() + 1, t);
    RET(C(d));
  };
  NAT("strncpy") {
    uint64_t d = ex.addrOf(s, ARG(0)), n = ex.addrOf(s, ARG(2));
    std::string t = ex.cstr(s, ex.addrOf(s, ARG(1)), n);
    for (uint64_t i = 0; i < n; i++) ex.store(s, d + i, 1, C(i < t.size() ? (uint8_t)t[i] : 0));
    RET(C(d));
  };
  NAT("strdup") {
    std::string t = ex.cstr(s, ex.addrOf(s, ARG(0)));
    uint64_t p = ex.newObj(s, t.size() + 1, 4, true);
    putStr(ex, s, p, t.size() + 1, t);
    RET(C(p));
  };

  // formatting
  NAT("vsnprintf") {
    std::string f = ex.cstr(s, ex.addrOf(s, ARG(2)));
    std::string t = formatVa(ex, s, f, ex.addrOf(s, ARG(3)));
    uint64_t d = ex.addrOf(s, ARG(0)), n = ex.addrOf(s, ARG(1));
    RET(C((uint32_t)putStr(ex, s, d, n, t)));
  };
  NAT("snprintf") {
    std::string f = ex.cstr(s, ex.addrOf(s, ARG(2)));
    unsigned k = 3;
    std::string t = formatC(ex, s, f, [&](unsigned w) {
      Val v = ARG(k);
      if (k < ci.argw.size() && w < ci.argw[k]) v = Ex::fromE(ex.P.Extract(ex.toE(v, ci.argw[k]), 0, w));
      k++;
      return v;
    });
    uint64_t d = ex.addrOf(s, ARG(0)), n = ex.addrOf(s, ARG(1));
    RET(C((uint32_t)putStr(ex, s, d, n, t)));
  };
  auto zero = [](Ex& ex, State& s, CallInfo& ci, int32_t dst) { for (uint32_t i = 0; i < ci.retSlots; i++) s.regs[s.frames.back().base + dst + i] = C(0); };
  for (const char* n : {"printf", "vprintf", "puts", "putchar", "fprintf", "vfprintf", "fputs", "fputc", "fflush", "fwrite", "perror",
                        "__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_once",
                        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev",
                        "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "__gthrw_pthread_key_create",
                        "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "sched_yield",
                        "se_log"})
    N[n] = zero;
  NAT("__errno_location") { RET(C(ex.errnoAddr)); };
  NAT("llvm.va_start") {
    uint64_t l = ex.addrOf(s, ARG(0));
    ex.store(s, l, 4, C(48));
    ex.store(s, l + 4, 4, C(304));
    ex.store(s, l + 8, 8, C((uint64_t)s.frames.back().vaObj << 32));
    ex.store(s, l + 16, 8, C(0));
  };
  NAT("llvm.va_copy") { ex.copyBytes(s, ex.addrOf(s, ARG(0)), ex.addrOf(s, ARG(1)), 24); };
  N["llvm.va_start.p0"] = N["llvm.va_start"];
  N["llvm.va_copy.p0"] = N["llvm.va_copy"];

  // one-time initialisation
  NAT("__cxa_guard_acquire") { uint64_t g = ex.addrOf(s, ARG(0)); Val v = ex.load(s, g, 1, 8); RET(C(v.v ? 0 : 1)); };
  NAT("__cxa_guard_release") { ex.store(s, ex.addrOf(s, ARG(0)), 1, C(1)); };
  NAT("__cxa_guard_abort") {};

  // locks: one thread of control, so a lock that is already held can never be had
  NAT("pthread_mutex_lock") {
    uint64_t m = ex.addrOf(s, ARG(0));
    Val v = ex.load(s, m, 4, 32);
    if (ex.branch(s, ex.P.Not(ex.P.Eq(ex.toE(v, 32), ex.P.c(32, 0))))) ex.violation(s, "deadlock", "a thread locks a mutex it already holds");
    ex.store(s, m, 4, C(1));
    RET(C(0));
  };
  NAT("pthread_mutex_trylock") {
    uint64_t m = ex.addrOf(s, ARG(0));
    Val v = ex.load(s, m, 4, 32);
    if (v.v) { RET(C(16)); return; }
    ex.store(s, m, 4, C(1));
    RET(C(0));
  };
  NAT("pthread_mutex_unlock") { ex.store(s, ex.addrOf(s, ARG(0)), 4, C(0)); RET(C(0)); };
  NAT("pthread_rwlock_rdlock") {
    uint64_t m = ex.addrOf(s, ARG(0));
    uint32_t v = ex.load(s, m, 4, 32).v;
    if (v == ~0u) ex.violation(s, "deadlock", "a thread read-locks a lock it holds for writing");
    ex.store(s, m, 4, C(v + 1));
    RET(C(0));
  };
  NAT("pthread_rwlock_wrlock") {
    uint64_t m = ex.addrOf(s, ARG(0));
    uint32_t v = ex.load(s, m, 4, 32).v;
    if (v) ex.violation(s, "deadlock", "a thread write-locks a lock it already holds");
    ex.store(s, m, 4, C(~0u));
    RET(C(0));
  };
  NAT("pthread_rwlock_unlock") {
    uint64_t m = ex.addrOf(s, ARG(0));
    uint32_t v = ex.load(s, m, 4, 32).v;
    ex.store(s, m, 4, C(v == ~0u || v == 0 ? 0 : v - 1));
    RET(C(0));
  };
  NAT("pthread_self") { RET(C(1)); };
  NAT("_ZNSt6chrono3_V212steady_clock3nowEv") { RET(C(0)); };
  NAT("_ZNSt6chrono3_V212system_clock3nowEv") { RET(C(0)); };

  // ends
  NAT("abort") { ex.violation(s, "abort", "abort() called"); };
  NAT("exit") { ex.violation(s, "abort", "exit() called"); };
  NAT("_exit") { ex.violation(s, "abort", "exit() called"); };
  NAT("__assert_fail") {
    ex.violation(s, "assertion", "assertion failed: " + ex.cstr(s, ARG(0).v));
  };
  NAT("_ZSt9terminatev") { ex.violation(s, "abort", "std::terminate called"); };
  NAT("__cxa_pure_virtual") { ex.violation(s, "abort", "pure virtual call"); };
  NAT("_ZSt21__glibcxx_assert_failPKciS0_S0_") { ex.violation(s, "stdlib", "library precondition: " + ex.cstr(s, ARG(3).v)); };
  N["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](Ex& ex, State& s, CallInfo& ci, int32_t) {
    uint64_t p = ARG(3).v;
    ex.violation(s, "stdlib", "library precondition: " + (p ? ex.cstr(s, p) : std::string("?")));
  };
  NAT("__cxa_allocate_exception") { RET(C(ex.newObj(s, ARG(0).v, 4, false))); };
  NAT("__cxa_free_exception") {};
  NAT("__cxa_throw") { ex.violation(s, "exception", "a C++ exception is thrown"); };
  NAT("__cxa_rethrow") { ex.violation(s, "exception", "a C++ exception is thrown"); };
  NAT("_ZSt19__throw_logic_errorPKc") { ex.violation(s, "exception", "std::logic_error: " + ex.cstr(s, ARG(0).v)); };
  NAT("_ZSt20__throw_length_errorPKc") { ex.violation(s, "exception", "std::length_error: " + ex.cstr(s, ARG(0).v)); };
  NAT("_ZSt20__throw_out_of_rangePKc") { ex.violation(s, "exception", "std::out_of_range: " + ex.cstr(s, ARG(0).v)); };
  NAT("_ZSt24__throw_out_of_range_fmtPKcz") { ex.violation(s, "exception", "std::out_of_range: " + ex.cstr(s, ARG(0).v)); };
  NAT("_ZSt24__throw_invalid_argumentPKc") { ex.violation(s, "exception", "std::invalid_argument: " + ex.cstr(s, ARG(0).v)); };
  for (const char* n : {"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv",
                        "_ZSt20__throw_system_errori", "_ZSt27__throw_bad_optional_accessv", "_ZSt26__throw_bad_variant_accessPKc"})
    N[n] = [](Ex& ex, State& s, CallInfo& ci, int32_t) { ex.violation(s, "exception", "a standard library exception is thrown"); };
#undef NAT
}
