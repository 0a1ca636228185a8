// symx: symbolic execution of LLVM bitcode with Z3.
//
//   symx --bc prog.bc --out DIR --budget SECONDS --jobs N --entry f [--entry g ...]
//
// Every path of every entry function is executed; values derived from se_sym
// are bit-vector expressions, and every branch, memory access and assertion on
// them is decided by the solver.  Work is shared among processes with fork().
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "dl.h"

using namespace llvm;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------------------
// Values and memory

struct Val {
  uint64_t v = 0;
  Expr* e = nullptr;
};
static inline Val C(uint64_t v) { return Val{v, nullptr}; }

struct Obj {
  uint32_t ref = 1;
  uint32_t size = 0;
  uint8_t kind = 0;  // 0 heap 1 stack 2 global 3 constant 4 heap (malloc family)
  bool hasSpecial = false;
  uint8_t* data = nullptr;
  uint8_t* st = nullptr;   // per byte: 0 concrete, 1 undef, 2+k = byte k of sym[i]
  Expr** sym = nullptr;
  Obj(uint32_t sz, uint8_t k) : size(sz), kind(k) { data = (uint8_t*)calloc(1, sz + 8); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), hasSpecial(o.hasSpecial) {
    data = (uint8_t*)malloc(size + 8);
    memcpy(data, o.data, size);
    if (o.st) { st = (uint8_t*)malloc(size + 8); memcpy(st, o.st, size); }
    if (o.sym) { sym = (Expr**)malloc((size + 1) * sizeof(Expr*)); memcpy(sym, o.sym, size * sizeof(Expr*)); }
  }
  ~Obj() { free(data); free(st); free(sym); }
  void needSt() { if (!st) st = (uint8_t*)calloc(1, size + 8); }
  void needSym() { needSt(); if (!sym) sym = (Expr**)calloc(size + 1, sizeof(Expr*)); }
};
static inline void unref(Obj* o) { if (o && --o->ref == 0) delete o; }

struct Chunk {
  static constexpr int N = 64;
  uint32_t ref = 1;
  Obj* o[N];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk& c) : ref(1) {
    memcpy(o, c.o, sizeof o);
    for (auto* p : o) if (p) p->ref++;
  }
  ~Chunk() { for (auto* p : o) unref(p); }
};

struct ObjTable {
  std::vector<Chunk*> ch;
  ObjTable() {}
  ObjTable(const ObjTable& t) : ch(t.ch) { for (auto* c : ch) if (c) c->ref++; }
  ~ObjTable() { for (auto* c : ch) if (c && --c->ref == 0) delete c; }
  Obj* get(uint32_t id) const {
    uint32_t k = id / Chunk::N;
    if (k >= ch.size() || !ch[k]) return nullptr;
    return ch[k]->o[id % Chunk::N];
  }
  Chunk* own(uint32_t k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) ch[k] = new Chunk();
    else if (ch[k]->ref > 1) { Chunk* n = new Chunk(*ch[k]); ch[k]->ref--; ch[k] = n; }
    return ch[k];
  }
  void set(uint32_t id, Obj* o) {
    Chunk* c = own(id / Chunk::N);
    unref(c->o[id % Chunk::N]);
    c->o[id % Chunk::N] = o;
  }
  Obj* wr(uint32_t id) {
    Chunk* c = own(id / Chunk::N);
    Obj*& o = c->o[id % Chunk::N];
    if (o->ref > 1) { Obj* n = new Obj(*o); o->ref--; o = n; }
    return o;
  }
};

// ---------------------------------------------------------------------------
// Pre-decoded code

enum Op : uint8_t {
  O_BIN, O_ICMP, O_SELECT, O_CAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CONDBR, O_SWITCH,
  O_CALL, O_RET, O_UNREACHABLE, O_COPY, O_FREEZE, O_RMW, O_CMPXCHG, O_NOP, O_UNSUP, O_FBIN, O_FCMP, O_FCAST, O_FNEG,
  O_WOVF, O_MINMAX, O_ABS, O_FSH, O_BITOP, O_RESUME
};

struct Edge { uint32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };

struct Func;
struct Ex;
struct State;
struct CallInfo;
using NativeFn = void (*)(Ex&, State&, CallInfo&, int32_t dst);

struct CallInfo {
  Func* callee = nullptr;
  int32_t fnop = 0;
  std::vector<int32_t> args;
  std::vector<uint8_t> argw;
  std::vector<std::pair<uint32_t, uint32_t>> byval;  // arg slot, size
  uint32_t nfixed = 0;
  uint32_t retSlots = 0;
  int32_t normal = -1;  // edge index for invoke
  const CallBase* cb = nullptr;
};

struct DInst {
  uint8_t op = O_NOP, sub = 0, w = 0, w2 = 0;
  int32_t dst = 0, a = 0, b = 0, c = 0;
  uint32_t ext = 0, n = 0;
  const Instruction* I = nullptr;
};

struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct GepInfo { uint64_t off; std::vector<std::pair<int32_t, uint64_t>> var; std::vector<uint8_t> vw; };

struct Func {
  Function* F = nullptr;
  std::string name;
  NativeFn native = nullptr;
  bool decoded = false, isDecl = false, vararg = false, hit = false, harness = false;
  uint32_t nregs = 0, nargs = 0, retSlots = 0;
  std::vector<uint8_t> argw;
  std::vector<DInst> code;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls;
  std::vector<SwitchInfo> switches;
  std::vector<GepInfo> geps;
  std::vector<std::pair<std::vector<int32_t>, int>> lists;
};

struct Frame {
  Func* f;
  uint32_t base;
  uint32_t pc;
  int32_t dst;       // destination register (absolute) in the caller
  uint32_t retSlots;
  int32_t normalEdge;  // caller edge to follow (invoke)
  uint32_t allocaMark;
  uint32_t vaObj = 0;
};

struct SymRec { uint32_t name; Expr* e; };

// What two threads did, as far as data races are concerned: a happens before b
// of the other thread iff a lock was released after a and acquired by the other
// one before b, one of both for writing.
struct Race {
  struct Acc { uint32_t id, off, n, seq; uint8_t thr; bool write; uint32_t func; };
  struct Sync { uint64_t lock; uint32_t seq; uint8_t thr; bool acquire, excl; };
  int thr = 0;
  uint32_t seq = 0;
  std::vector<Acc> acc;
  std::vector<Sync> sync;
};

struct State {
  ObjTable mem;
  std::shared_ptr<Race> race;
  std::vector<Val> regs;
  std::vector<Frame> frames;
  std::vector<uint32_t> allocas;   // live stack objects
  std::vector<Expr*> conds;        // path condition (solver stack)
  std::vector<Expr*> known;        // implied facts
  std::vector<Expr*> asserts;      // pending assertion conditions (all must hold)
  std::vector<std::pair<uint32_t, uint32_t>> assertInfo;  // msg idx, loc idx
  Model* model = nullptr;
  uint32_t nextHeap = 0, nextUndef = 0, stackHigh = 0;
  std::vector<uint32_t> freeStack;
  std::vector<SymRec> syms;
  std::vector<Val> emits;
  std::vector<std::pair<uint32_t, uint16_t>> nameCount;
  uint64_t insts = 0;
  uint32_t depth = 0;
  uint32_t entry = 0;
  uint32_t reach = 0;
  bool fatalAllowed = false;
  State() {}
  State(const State& o) = default;
};

struct Shared {
  std::atomic<int> active;
  std::atomic<int> stop;
  std::atomic<int> nviol;
  std::atomic<uint64_t> samples[64];
  std::atomic<uint64_t> paths;
  std::atomic<double> violAt;
};

struct PathEnd {};   // thrown to end the current path
struct ChildStart {};  // thrown in a new worker process

struct Violation {
  uint32_t entry;
  std::string kind, msg, loc;
  std::vector<std::string> stack;
  std::vector<std::tuple<std::string, unsigned, uint64_t>> syms;
};
struct Sample {
  uint32_t entry;
  std::vector<std::tuple<std::string, unsigned, uint64_t>> syms;
  std::vector<uint64_t> emits;
};

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

struct Ex {
  ExprPool P;
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Function*, Func*> funcs;
  std::vector<Func*> fnById;
  DenseMap<const GlobalVariable*, uint64_t> gaddr;
  std::vector<Val> consts;
  std::unordered_map<uint64_t, int32_t> constIdx;
  std::unordered_map<std::string, NativeFn> natives;
  State* cur = nullptr;
  std::deque<State*> pending;
  Shared* sh = nullptr;
  std::string outdir;
  std::vector<std::string> entries;
  std::vector<std::string> names;                     // interned strings
  std::unordered_map<std::string, uint32_t> nameIdx;
  std::unordered_map<uint64_t, Expr*> symVar;         // (nameId<<16|occ) -> var
  std::unordered_map<uint64_t, Expr*> undefVar;
  std::set<std::string> reached;
  std::map<std::string, uint64_t> errors;
  std::vector<Violation> viols;
  std::map<std::string, int> violKeys;
  std::vector<Sample> samples;
  int jobs = 8;
  double deadline = 1e18, t0 = 0, grace = 5;
  uint64_t maxInsts = 30000000, sampleCap = 24, seed = 1;
  double lastDonate = 0;
  bool isChild = false;
  // stats
  uint64_t nInst = 0, nPaths = 0, nAssume = 0, nForks = 0, nQ = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nCacheHit = 0, nSolved = 0, nAsserts = 0, nAssertQ = 0, nUnexplored = 0;
  double tSolver = 0;
  std::vector<uint64_t> entryPaths, entryDone, entryUnexplored, entryAsserts;
  bool incomplete = false;
  uint32_t nGlobals = 0;
  static constexpr uint32_t STACK0 = 1u << 20;   // ids of stack objects
  static constexpr uint32_t HEAP0 = 1u << 21;
  uint32_t maxStack = 0;
  uint64_t errnoAddr = 0;

  // ---- solver ------------------------------------------------------------
  Z3_solver sol = nullptr;

  uint64_t modelUid = 1;

  void initSolver() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    P.ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(P.ctx, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
      _exit(3);
    });
    const char* how = getenv("SYMX_SOLVER");
    if (how && !strcmp(how, "simple")) sol = Z3_mk_simple_solver(P.ctx);
    else sol = Z3_mk_solver_for_logic(P.ctx, Z3_mk_string_symbol(P.ctx, "QF_BV"));
    Z3_solver_inc_ref(P.ctx, sol);
    limit(60000000);
  }
  unsigned solLimit = 0;
  void limit(unsigned lim) {
    if (lim == solLimit) return;
    Z3_params p = Z3_mk_params(P.ctx);
    Z3_params_inc_ref(P.ctx, p);
    Z3_params_set_uint(P.ctx, p, Z3_mk_string_symbol(P.ctx, "rlimit"), lim);
    Z3_solver_set_params(P.ctx, sol, p);
    Z3_params_dec_ref(P.ctx, p);
    solLimit = lim;
  }

  void relModel(Model* m) { if (m && --m->ref == 0) delete m; }
  void setModel(State& s, Model* m) { m->ref++; relModel(s.model); s.model = m; }

  // Constraints that share variables with e, directly or through others.
  void slice(State& s, Expr* e, std::vector<Expr*>& out) {
    static std::vector<uint8_t> mark;
    mark.assign(P.vars.size(), 0);
    for (uint32_t v : P.varsOf(e)) mark[v] = 1;
    std::vector<Expr*> rest = s.conds;
    bool grew = true;
    while (grew) {
      grew = false;
      size_t k = 0;
      for (size_t i = 0; i < rest.size(); i++) {
        const auto& vs = P.varsOf(rest[i]);
        bool hit = false;
        for (uint32_t v : vs) if (mark[v]) { hit = true; break; }
        if (!hit) { rest[k++] = rest[i]; continue; }
        out.push_back(rest[i]);
        for (uint32_t v : vs) if (!mark[v]) { mark[v] = 1; grew = true; }
      }
      rest.resize(k);
    }
    std::sort(out.begin(), out.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    out.erase(std::unique(out.begin(), out.end()), out.end());
  }
  struct QRes { int res; std::vector<std::pair<uint32_t, uint64_t>> vals; };
  struct KeyHash { size_t operator()(const std::vector<uint32_t>& k) const { uint64_t h = 1469598103934665603ull; for (uint32_t x : k) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
  std::unordered_map<std::vector<uint32_t>, QRes, KeyHash> qcache;
  std::deque<Model*> recent;

  Model* withVals(State& s, const std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    Model* mm = new Model();
    mm->uid = modelUid++;
    if (s.model) mm->vals = s.model->vals;
    mm->vals.resize(P.vars.size(), 0);
    for (auto& p : vals) mm->vals[p.first] = p.second;
    return mm;
  }
  void remember(Model* m) {
    m->ref++;
    recent.push_front(m);
    if (recent.size() > 24) { relModel(recent.back()); recent.pop_back(); }
  }

  DiffLogic dl{P};
  bool noDL = getenv("SYMX_NODL");
  unsigned dlSample = getenv("SYMX_DLSAMPLE") ? atoi(getenv("SYMX_DLSAMPLE")) : 200;
  unsigned dlAssert = getenv("SYMX_DLASSERT") ? atoi(getenv("SYMX_DLASSERT")) : 1;
  uint64_t nDL = 0, nDLCheck = 0;
  // Is conds /\ extra satisfiable?  1 sat (model set), 0 unsat, -1 unknown.
  int query(State& s, Expr* extra, Model** out, bool strong = false) {
    double a = now();
    nQ++;
    std::vector<Expr*> cs;
    slice(s, extra, cs);
    std::vector<uint32_t> key;
    key.reserve(cs.size() + 1);
    for (auto* e : cs) key.push_back(e->id);
    key.push_back(extra->id);
    auto it = qcache.find(key);
    if (it != qcache.end()) {
      nCacheHit++;
      if (it->second.res == 1) { nSat++; if (out) { *out = withVals(s, it->second.vals); remember(*out); } }
      else nUnsat++;
      tSolver += now() - a;
      return it->second.res;
    }
    std::vector<uint32_t> vs;
    {
      std::vector<uint8_t> m(P.vars.size(), 0);
      for (uint32_t v : P.varsOf(extra)) m[v] = 1;
      for (auto* e : cs) for (uint32_t v : P.varsOf(e)) m[v] = 1;
      for (uint32_t i = 0; i < m.size(); i++) if (m[i]) vs.push_back(i);
    }
    for (Model* m : recent) {
      bool ok = P.eval(extra, m);
      for (size_t i = 0; ok && i < cs.size(); i++) ok = P.eval(cs[i], m);
      if (!ok) continue;
      nCacheHit++;
      nSat++;
      QRes q{1, {}};
      for (uint32_t v : vs) q.vals.push_back({v, v < m->vals.size() ? m->vals[v] : 0});
      if (out) *out = withVals(s, q.vals);
      qcache.emplace(std::move(key), std::move(q));
      tSolver += now() - a;
      return 1;
    }
    // difference logic first; a sample of its answers is put to Z3 as well
    int dlRes = -1;
    QRes dq;
    if (!noDL) {
      std::vector<Expr*> fs = cs;
      fs.push_back(extra);
      dlRes = dl.solve(fs, vs, s.model, dq.vals);
      if (dlRes >= 0) nDL++;
      // (a satisfying assignment has been evaluated, there is nothing to cross-check)
      if (dlRes == 1 || (dlRes == 0 && KeyHash()(key) % (strong ? dlAssert : dlSample) != 0)) {
        dq.res = dlRes;
        if (dlRes == 1) { nSat++; if (out) { *out = withVals(s, dq.vals); remember(*out); } } else nUnsat++;
        tSolver += now() - a;
        if (qcache.size() > 300000) qcache.clear();
        qcache.emplace(std::move(key), std::move(dq));
        return dlRes;
      }
    }
    limit(dlRes >= 0 ? 1000000 : 60000000);
    Z3_solver_reset(P.ctx, sol);
    for (auto* e : cs) Z3_solver_assert(P.ctx, sol, P.zb(e));
    Z3_solver_assert(P.ctx, sol, P.zb(extra));
    Z3_lbool r = Z3_solver_check(P.ctx, sol);
    nSolved++;
    int res;
    QRes q;
    if (r == Z3_L_TRUE) {
      res = 1;
      nSat++;
      Z3_model m = Z3_solver_get_model(P.ctx, sol);
      Z3_model_inc_ref(P.ctx, m);
      std::map<uint32_t, uint64_t> got;
      unsigned n = Z3_model_get_num_consts(P.ctx, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(P.ctx, m, i);
        const char* nm = Z3_get_symbol_string(P.ctx, Z3_get_decl_name(P.ctx, d));
        if (nm[0] != 'v') continue;
        size_t k = strtoull(nm + 1, nullptr, 10);
        Z3_ast v = Z3_model_get_const_interp(P.ctx, m, d);
        uint64_t x = 0;
        if (v && Z3_get_numeral_uint64(P.ctx, v, &x)) got[k] = x;
      }
      Z3_model_dec_ref(P.ctx, m);
      for (uint32_t v : vs) q.vals.push_back({v, got.count(v) ? got[v] : 0});
      if (out) { *out = withVals(s, q.vals); remember(*out); }
    } else if (r == Z3_L_FALSE) {
      res = 0;
      nUnsat++;
    } else if (dlRes >= 0) {
      res = dlRes;
      nUnsat++;
    } else {
      res = -1;
      nUnknown++;
      incomplete = true;
      errors[std::string("solver gave up: ") + Z3_solver_get_reason_unknown(P.ctx, sol)]++;
    }
    if (dlRes >= 0) {
      if (r != Z3_L_UNDEF) nDLCheck++;
      if (res >= 0 && res != dlRes) {
        errors["difference logic and Z3 disagree"]++;
        incomplete = true;
        fprintf(stderr, "DISAGREE dl %d z3 %d\n%s\n", dlRes, res, Z3_solver_to_string(P.ctx, sol));
      }
    }
    double dt = now() - a;
    tSolver += dt;
    if (getenv("SYMX_DUMP") && dt > (getenv("SYMX_DUMPT") ? atof(getenv("SYMX_DUMPT")) : 0.3)) {
      FILE* f = fopen((std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(getpid()) + "." + std::to_string(nQ) + ".smt2").c_str(), "w");
      fprintf(f, "; %.4f %d\n%s(check-sat)\n", dt, res, Z3_solver_to_string(P.ctx, sol));
      fclose(f);
    }
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "slow query %.2fs res %d conds %zu at %s\n", dt, res, s.conds.size(), loc(s).c_str()); for (auto& x : stackOf(s)) fprintf(stderr, "    %s\n", x.c_str()); }
    if (res >= 0) {
      if (qcache.size() > 300000) qcache.clear();
      q.res = res;
      qcache.emplace(std::move(key), std::move(q));
    }
    return res;
  }

  // ---- names -------------------------------------------------------------
  uint32_t intern(const std::string& s) {
    auto it = nameIdx.find(s);
    if (it != nameIdx.end()) return it->second;
    names.push_back(s);
    return nameIdx[s] = names.size() - 1;
  }

  // ---- constants -----------------------------------------------------------
  int32_t constOp(uint64_t v) {
    auto it = constIdx.find(v);
    if (it != constIdx.end()) return it->second;
    consts.push_back(C(v));
    int32_t r = ~(int32_t)(consts.size() - 1);
    constIdx[v] = r;
    return r;
  }
  static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
  uint32_t slots(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* st = dyn_cast<StructType>(t)) {
      uint32_t n = 0;
      for (auto* e : st->elements()) n += slots(e);
      return n;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slots(at->getElementType());
    return 1;
  }
  uint32_t slotOff(Type* t, ArrayRef<unsigned> idx, Type** leaf) {
    uint32_t o = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; k++) o += slots(st->getElementType(k));
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        o += i * slots(at->getElementType());
        t = at->getElementType();
      }
    }
    *leaf = t;
    return o;
  }
  unsigned width(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  Func* getFunc(const Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    Func* f = new Func();
    f->F = const_cast<Function*>(F);
    f->name = F->getName().str();
    f->isDecl = F->isDeclaration();
    f->vararg = F->isVarArg();
    if (auto* sp = F->getSubprogram()) f->harness = (sp->getDirectory() + "/" + sp->getFilename()).str().find("/harness/") != std::string::npos;
    f->retSlots = slots(F->getReturnType());
    for (auto& a : F->args()) {
      std::vector<uint8_t> ws;
      flatW(a.getType(), f->argw);
      f->nargs += slots(a.getType());
    }
    auto n = natives.find(f->name);
    // (a harness may bring its own)
    if (n != natives.end() && (f->isDecl || !f->harness)) f->native = n->second;
    funcs[F] = f;
    fnById.push_back(f);
    return f;
  }
  void flatW(Type* t, std::vector<uint8_t>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) flatW(e, out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) flatW(at->getElementType(), out); return; }
    if (!t->isVoidTy()) out.push_back(width(t));
  }
  uint64_t fnAddr(const Function* F) {
    Func* f = getFunc(F);
    auto it = fnAddrs.find(f);
    if (it != fnAddrs.end()) return it->second;
    fnTab.push_back(f);
    return fnAddrs[f] = (1ull << 32) | (fnTab.size() * 16);
  }
  std::unordered_map<Func*, uint64_t> fnAddrs;
  std::vector<Func*> fnTab;

  uint64_t globalAddr(const GlobalVariable* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    fprintf(stderr, "unknown global %s\n", g->getName().str().c_str());
    exit(3);
  }
  // scalar constants only
  uint64_t evalScalar(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) return ci->getValue().getLoBits(64).getZExtValue();
      return ci->getZExtValue();
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* f = dyn_cast<Function>(c)) return fnAddr(f);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
    if (auto* a = dyn_cast<GlobalAlias>(c)) return evalScalar(a->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); exit(3); }
          return evalScalar(ce->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          return evalScalar(ce->getOperand(0)) & maskw(width(ce->getType()));
        case Instruction::Trunc: return evalScalar(ce->getOperand(0)) & maskw(width(ce->getType()));
        case Instruction::Add: return (evalScalar(ce->getOperand(0)) + evalScalar(ce->getOperand(1))) & maskw(width(ce->getType()));
        case Instruction::Sub: return (evalScalar(ce->getOperand(0)) - evalScalar(ce->getOperand(1))) & maskw(width(ce->getType()));
        case Instruction::ICmp: {
          uint64_t a = evalScalar(ce->getOperand(0)), b = evalScalar(ce->getOperand(1));
          switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return a == b;
            case CmpInst::ICMP_NE: return a != b;
            case CmpInst::ICMP_ULT: return a < b;
            case CmpInst::ICMP_UGT: return a > b;
            default: break;
          }
          break;
        }
        case Instruction::Select: return evalScalar(ce->getOperand(0)) ? evalScalar(ce->getOperand(1)) : evalScalar(ce->getOperand(2));
        default: break;
      }
      fprintf(stderr, "unsupported constant expression: ");
      ce->print(errs());
      fprintf(stderr, "\n");
      exit(3);
    }
    fprintf(stderr, "unsupported constant\n");
    c->print(errs());
    exit(3);
  }
  void flatConst(const Constant* c, std::vector<int32_t>& out) {
    Type* t = c->getType();
    if (isAgg(t)) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
      return;
    }
    out.push_back(constOp(evalScalar(c)));
  }
  void writeConst(Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef raw = cd->getRawDataValues();
      memcpy(o->data + off, raw.data(), raw.size());
      return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) writeConst(o, off + i * es, c->getAggregateElement(i));
      return;
    }
    uint64_t v = evalScalar(c);
    memcpy(o->data + off, &v, DL->getTypeStoreSize(t));
  }

  // ---- decoding ------------------------------------------------------------
  void decode(Func* f) {
    f->decoded = true;
    Function& F = *f->F;
    DenseMap<const Value*, int32_t> reg;
    uint32_t n = 0;
    for (auto& a : F.args()) { reg[&a] = n; n += slots(a.getType()); }
    for (auto& I : instructions(F))
      if (!I.getType()->isVoidTy()) { reg[&I] = n; n += slots(I.getType()); }
    // one spare slot
    f->nregs = n + 1;
    DenseMap<const BasicBlock*, uint32_t> bpc;
    struct Fix { uint32_t edge; const BasicBlock* bb; };
    std::vector<Fix> fixes;
    auto op = [&](const Value* v) -> int32_t {
      if (auto* c = dyn_cast<Constant>(v)) return constOp(evalScalar(c));
      auto it = reg.find(v);
      if (it == reg.end()) { return constOp(0); }
      return it->second;
    };
    auto ops = [&](const Value* v) {
      std::vector<int32_t> r;
      if (auto* c = dyn_cast<Constant>(v)) flatConst(c, r);
      else { int32_t b = reg[v]; for (uint32_t i = 0; i < slots(v->getType()); i++) r.push_back(b + i); }
      return r;
    };
    auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
      Edge e;
      e.pc = 0;
      for (auto& phi : to->phis()) {
        const Value* v = phi.getIncomingValueForBlock(from);
        auto src = ops(v);
        int32_t d = reg[&phi];
        for (size_t i = 0; i < src.size(); i++) if (src[i] != d + (int32_t)i) e.copies.push_back({d + (int32_t)i, src[i]});
      }
      f->edges.push_back(std::move(e));
      fixes.push_back({(uint32_t)f->edges.size() - 1, to});
      return f->edges.size() - 1;
    };
    for (auto& BB : F) {
      bpc[&BB] = f->code.size();
      for (auto& I : BB) {
        if (isa<PHINode>(I)) continue;
        DInst d;
        d.I = &I;
        d.dst = I.getType()->isVoidTy() ? 0 : reg[&I];
        Type* ty = I.getType();
        bool bad = false;
        if (auto* b = dyn_cast<BinaryOperator>(&I)) {
          d.op = ty->isFloatingPointTy() ? O_FBIN : O_BIN;
          d.sub = b->getOpcode();
          d.w = width(ty);
          d.a = op(b->getOperand(0)); d.b = op(b->getOperand(1));
          if (!d.w || d.w > 64 || ty->isVectorTy()) bad = true;
        } else if (auto* c = dyn_cast<ICmpInst>(&I)) {
          d.op = O_ICMP; d.sub = c->getPredicate(); d.w = width(c->getOperand(0)->getType());
          d.a = op(c->getOperand(0)); d.b = op(c->getOperand(1));
          if (!d.w || d.w > 64 || ty->isVectorTy()) bad = true;
        } else if (auto* c = dyn_cast<FCmpInst>(&I)) {
          d.op = O_FCMP; d.sub = c->getPredicate(); d.w = width(c->getOperand(0)->getType());
          d.a = op(c->getOperand(0)); d.b = op(c->getOperand(1));
        } else if (auto* s = dyn_cast<SelectInst>(&I)) {
          d.op = O_SELECT; d.w = width(ty);
          d.a = op(s->getCondition());
          d.w2 = ty->isPointerTy() || isAgg(ty) || ty->isFloatingPointTy();
          if (isAgg(ty)) {
            f->lists.push_back({ops(s->getTrueValue()), 0});
            f->lists.push_back({ops(s->getFalseValue()), 0});
            d.ext = f->lists.size() - 2;
            d.n = slots(ty);
          } else { d.b = op(s->getTrueValue()); d.c = op(s->getFalseValue()); d.n = 1; }
          if (ty->isVectorTy()) bad = true;
        } else if (auto* c = dyn_cast<CastInst>(&I)) {
          d.a = op(c->getOperand(0));
          d.w2 = width(c->getOperand(0)->getType()); d.w = width(ty);
          d.sub = c->getOpcode();
          switch (c->getOpcode()) {
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = O_CAST; break;
            default: d.op = O_FCAST; break;
          }
          if (!d.w || !d.w2 || ty->isVectorTy()) bad = true;
          if (d.w > 64 || d.w2 > 64) bad = true;
        } else if (auto* l = dyn_cast<LoadInst>(&I)) {
          d.op = O_LOAD; d.sub = l->isAtomic(); d.a = op(l->getPointerOperand()); d.w = width(ty); d.n = DL->getTypeStoreSize(ty);
          if (!d.w || d.w > 64) bad = true;
        } else if (auto* s = dyn_cast<StoreInst>(&I)) {
          Type* vt = s->getValueOperand()->getType();
          d.op = O_STORE; d.sub = s->isAtomic(); d.a = op(s->getPointerOperand()); d.w = width(vt); d.n = DL->getTypeStoreSize(vt);
          if (!d.w || d.w > 64) bad = true; else d.b = op(s->getValueOperand());
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          d.op = O_GEP; d.a = op(g->getPointerOperand());
          GepInfo gi; gi.off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* ix = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull()) {
              gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) gi.off += es * ci->getSExtValue();
              else { gi.var.push_back({op(ix), es}); gi.vw.push_back(width(ix->getType())); }
            }
          }
          if (ty->isVectorTy()) bad = true;
          f->geps.push_back(gi); d.ext = f->geps.size() - 1;
        } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
          d.op = O_ALLOCA; d.n = DL->getTypeAllocSize(a->getAllocatedType()); d.a = op(a->getArraySize()); d.w = width(a->getArraySize()->getType());
        } else if (auto* b = dyn_cast<BranchInst>(&I)) {
          if (b->isUnconditional()) { d.op = O_BR; d.ext = mkEdge(&BB, b->getSuccessor(0)); }
          else { d.op = O_CONDBR; d.a = op(b->getCondition()); d.ext = mkEdge(&BB, b->getSuccessor(0)); d.n = mkEdge(&BB, b->getSuccessor(1)); }
        } else if (auto* s = dyn_cast<SwitchInst>(&I)) {
          d.op = O_SWITCH; d.a = op(s->getCondition()); d.w = width(s->getCondition()->getType());
          SwitchInfo si;
          for (auto& cs : s->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), mkEdge(&BB, cs.getCaseSuccessor())});
          si.def = mkEdge(&BB, s->getDefaultDest());
          f->switches.push_back(si); d.ext = f->switches.size() - 1;
        } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
          d.op = O_RET;
          if (r->getReturnValue()) { f->lists.push_back({ops(r->getReturnValue()), 0}); d.ext = f->lists.size() - 1; d.n = 1; }
        } else if (isa<UnreachableInst>(I)) {
          d.op = O_UNREACHABLE;
        } else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
          Type* leaf; uint32_t o = slotOff(e->getAggregateOperand()->getType(), e->getIndices(), &leaf);
          auto src = ops(e->getAggregateOperand());
          d.op = O_COPY;
          std::vector<int32_t> l(src.begin() + o, src.begin() + o + slots(leaf));
          f->lists.push_back({l, 0}); d.ext = f->lists.size() - 1;
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
          Type* leaf; uint32_t o = slotOff(iv->getAggregateOperand()->getType(), iv->getIndices(), &leaf);
          auto src = ops(iv->getAggregateOperand());
          auto ins = ops(iv->getInsertedValueOperand());
          for (size_t i = 0; i < ins.size(); i++) src[o + i] = ins[i];
          d.op = O_COPY;
          f->lists.push_back({src, 0}); d.ext = f->lists.size() - 1;
        } else if (isa<FreezeInst>(I)) {
          d.op = O_COPY;
          f->lists.push_back({ops(I.getOperand(0)), 0}); d.ext = f->lists.size() - 1;
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
          d.op = O_RMW; d.sub = rm->getOperation(); d.a = op(rm->getPointerOperand()); d.b = op(rm->getValOperand()); d.w = width(ty); d.n = DL->getTypeStoreSize(ty);
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
          d.op = O_CMPXCHG; d.a = op(cx->getPointerOperand()); d.b = op(cx->getCompareOperand()); d.c = op(cx->getNewValOperand());
          d.w = width(cx->getCompareOperand()->getType()); d.n = DL->getTypeStoreSize(cx->getCompareOperand()->getType());
        } else if (isa<FenceInst>(I)) {
          continue;
        } else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) {
          d.op = O_RESUME;
        } else if (I.getOpcode() == Instruction::FNeg) {
          d.op = O_FNEG; d.w = width(ty); d.a = op(I.getOperand(0));
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (!decodeCall(f, d, cb, op, ops, mkEdge, &BB)) continue;
        } else {
          bad = true;
        }
        if (bad) d.op = O_UNSUP;
        f->code.push_back(d);
      }
    }
    for (auto& x : fixes) f->edges[x.edge].pc = bpc[x.bb];
  }

  template <class A, class B, class E>
  bool decodeCall(Func* f, DInst& d, const CallBase* cb, A& op, B& ops, E& mkEdge, const BasicBlock* BB) {
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
      d.w = width(ii->getType());
      switch (ii->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::donothing:
          return false;
        case Intrinsic::stacksave:
          d.op = O_COPY; f->lists.push_back({{constOp(0)}, 0}); d.ext = f->lists.size() - 1; return true;
        case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
          d.op = O_COPY; f->lists.push_back({ops(ii->getArgOperand(0)), 0}); d.ext = f->lists.size() - 1; return true;
        case Intrinsic::is_constant:
          d.op = O_COPY; f->lists.push_back({{constOp(0)}, 0}); d.ext = f->lists.size() - 1; return true;
        case Intrinsic::objectsize:
          d.op = O_COPY; f->lists.push_back({{constOp(~0ull)}, 0}); d.ext = f->lists.size() - 1; return true;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
          d.op = O_MINMAX; d.ext = ii->getIntrinsicID(); d.a = op(ii->getArgOperand(0)); d.b = op(ii->getArgOperand(1)); return true;
        case Intrinsic::abs: d.op = O_ABS; d.a = op(ii->getArgOperand(0)); return true;
        case Intrinsic::fshl: case Intrinsic::fshr:
          d.op = O_FSH; d.sub = ii->getIntrinsicID() == Intrinsic::fshr; d.a = op(ii->getArgOperand(0)); d.b = op(ii->getArgOperand(1)); d.c = op(ii->getArgOperand(2)); return true;
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap:
          d.op = O_BITOP; d.ext = ii->getIntrinsicID(); d.a = op(ii->getArgOperand(0)); return true;
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
          d.op = O_WOVF; d.ext = ii->getIntrinsicID(); d.w = width(ii->getArgOperand(0)->getType()); d.a = op(ii->getArgOperand(0)); d.b = op(ii->getArgOperand(1)); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
          d.op = O_UNREACHABLE; d.sub = 1; return true;
        default: break;
      }
    }
    CallInfo ci;
    ci.cb = cb;
    d.op = O_CALL;
    const Value* callee = cb->getCalledOperand()->stripPointerCasts();
    if (auto* a = dyn_cast<GlobalAlias>(callee)) callee = a->getAliaseeObject();
    if (auto* F = dyn_cast<Function>(callee)) ci.callee = getFunc(F);
    else if (isa<InlineAsm>(callee)) { d.op = O_NOP; return cb->getType()->isVoidTy() ? false : (d.op = O_UNSUP, true); }
    else ci.fnop = op(cb->getCalledOperand());
    ci.nfixed = cb->getFunctionType()->getNumParams();
    uint32_t fixedSlots = 0;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
      if (cb->getArgOperand(i)->getType()->isMetadataTy()) { ci.args.push_back(constOp(0)); ci.argw.push_back(64); continue; }
      auto s = ops(cb->getArgOperand(i));
      if (cb->isByValArgument(i)) ci.byval.push_back({(uint32_t)ci.args.size(), (uint32_t)DL->getTypeAllocSize(cb->getParamByValType(i))});
      for (auto x : s) ci.args.push_back(x);
      flatW(cb->getArgOperand(i)->getType(), ci.argw);
      if (i + 1 == ci.nfixed) fixedSlots = ci.args.size();
    }
    ci.nfixed = fixedSlots;
    ci.retSlots = slots(cb->getType());
    if (auto* inv = dyn_cast<InvokeInst>(cb)) ci.normal = mkEdge(BB, inv->getNormalDest());
    f->calls.push_back(std::move(ci));
    d.ext = f->calls.size() - 1;
    return true;
  }

  // ---- errors and violations ------------------------------------------------
  std::string locOf(const Instruction* I) {
    if (!I) return "?";
    if (const DILocation* l = I->getDebugLoc().get()) {
      return l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    return I->getFunction() ? I->getFunction()->getName().str() : "?";
  }
  const Instruction* instAt(const Frame& fr) {
    return fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
  }
  std::string loc(State& s) { return s.frames.empty() ? "?" : locOf(instAt(s.frames.back())); }
  std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r;
    for (size_t i = s.frames.size(); i-- > 0;) {
      const Instruction* I = instAt(s.frames[i]);
      const DILocation* l = I ? I->getDebugLoc().get() : nullptr;
      if (!l) { r.push_back(demangle(s.frames[i].f->name)); continue; }
      while (l) {
        std::string fn = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "?";
        r.push_back(fn + " " + l->getFilename().str() + ":" + std::to_string(l->getLine()));
        l = l->getInlinedAt();
      }
      if (r.size() > 24) break;
    }
    return r;
  }
  std::vector<std::tuple<std::string, unsigned, uint64_t>> concretize(State& s, const Model* m) {
    std::vector<std::tuple<std::string, unsigned, uint64_t>> r;
    for (auto& x : s.syms) r.push_back({names[x.name], x.e->w, P.eval(x.e, m)});
    return r;
  }
  [[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg, Model* m = nullptr) {
    addViolation(s, kind, msg, loc(s), m ? m : s.model);
    throw PathEnd();
  }
  void addViolation(State& s, const std::string& kind, const std::string& msg, const std::string& where, const Model* m) {
    std::string key = std::to_string(s.entry) + "|" + kind + "|" + msg;
    if (violKeys[key]++ >= 2) return;
    Violation v;
    v.entry = s.entry; v.kind = kind; v.msg = msg; v.loc = where;
    v.stack = stackOf(s);
    v.syms = concretize(s, m);
    viols.push_back(std::move(v));
    if (sh->nviol.fetch_add(1) == 0) sh->violAt = now();
    writeViolations();
  }
  void writeViolations() {}
  [[noreturn]] void error(State& s, const std::string& msg) {
    errors[msg + " at " + loc(s)]++;
    incomplete = true;
    throw PathEnd();
  }

  bool forkStat = getenv("SYMX_FORKS");
  std::map<std::string, long> forkLoc;
  // ---- forking ----------------------------------------------------------------
  State* clone(State& s) {
    State* n = new State(s);
    if (n->model) n->model->ref++;
    n->depth++;
    return n;
  }
  void destroy(State* s) { relModel(s->model); delete s; }
  bool hasFact(State& s, Expr* c) {
    if (c->op == EK::And && c->w == 1) return hasFact(s, c->k[0]) && hasFact(s, c->k[1]);
    if (c->op == EK::Or && c->w == 1 && (hasFact(s, c->k[0]) || hasFact(s, c->k[1]))) return true;
    for (size_t i = s.conds.size(); i-- > 0;) if (s.conds[i] == c) return true;
    for (size_t i = s.known.size(); i-- > 0;) if (s.known[i] == c) return true;
    return false;
  }
  // Conjunctions are split so that later branches on a conjunct are known.
  void addCond(State& s, Expr* c) {
    if (c->op == EK::And && c->w == 1) { addCond(s, c->k[0]); addCond(s, c->k[1]); return; }
    if (c->op == EK::Not && c->k[0]->op == EK::Or) { addCond(s, P.Not(c->k[0]->k[0])); addCond(s, P.Not(c->k[0]->k[1])); return; }
    if (ExprPool::isTrue(c)) return;
    if (hasFact(s, c)) return;
    s.conds.push_back(c);
  }
  void checkStop() {
    if (sh->stop.load(std::memory_order_relaxed)) return;
    double t = now();
    if (t > deadline) sh->stop = 1;
    if (sh->nviol.load(std::memory_order_relaxed) && t > sh->violAt.load() + grace) sh->stop = 1;
  }
  void donate() {
    if (pending.empty() || jobs <= 1) return;
    double t = now();
    if (t - lastDonate < 0.004) return;
    int a = sh->active.load();
    if (a >= jobs) return;
    if (!sh->active.compare_exchange_strong(a, a + 1)) return;
    lastDonate = t;
    State* give = pending.front();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { sh->active--; return; }
    if (pid == 0) {
      isChild = true;
      resetStats();
      // the child owns only the donated state
      pending.clear();
      pending.push_back(give);
      throw ChildStart();
    }
    pending.pop_front();
    destroy(give);
  }
  void resetStats() {
    nInst = nPaths = nAssume = nForks = nQ = nSat = nUnsat = nUnknown = nCacheHit = nSolved = nDL = nDLCheck = nAsserts = nAssertQ = nUnexplored = 0;
    tSolver = 0;
    for (auto& x : entryPaths) x = 0;
    for (auto& x : entryUnexplored) x = 0;
    for (auto& x : entryAsserts) x = 0;
    forkLoc.clear();
    viols.clear();
    samples.clear();
    errors.clear();
    reached.clear();
    for (auto& f : fnById) f->hit = false;
    incomplete = false;
  }

  // Decide a boolean condition; may fork (the sibling re-executes the
  // current instruction with the negated condition known).
  bool branch(State& s, Expr* c) {
    if (c->op == EK::Const) return c->val;
    Expr* nc = P.Not(c);
    if (hasFact(s, c)) return true;
    if (hasFact(s, nc)) return false;
    bool side = P.eval(c, s.model);
    Expr* mine = side ? c : nc;
    Expr* other = side ? nc : c;
    Model* om = nullptr;
    int r = query(s, other, &om);
    if (r == 0) { s.known.push_back(mine); return side; }
    if (r < 0) { addCond(s, mine); nUnexplored++; entryUnexplored[s.entry]++; return side; }
    nForks++;
    if (forkStat) forkLoc[loc(s)]++;
    State* n = clone(s);
    setModel(*n, om);
    addCond(*n, other);
    addCond(s, mine);
    pending.push_back(n);
    checkStop();
    donate();
    return side;
  }
  // Force an expression to a value, forking over the feasible values.
  uint64_t concretizeVal(State& s, Val v, unsigned w) {
    if (!v.e) return v.v;
    // scaled and shifted indices: settle the index itself, which keeps the facts simple
    {
      Expr* e = v.e;
      auto isC = ExprPool::isC;
      if (e->op == EK::Add || e->op == EK::Mul) {
        if (isC(e->k[1])) return ExprPool::fold(e->op, w, concretizeVal(s, Val{0, e->k[0]}, w), e->k[1]->val);
        if (isC(e->k[0])) return ExprPool::fold(e->op, w, e->k[0]->val, concretizeVal(s, Val{0, e->k[1]}, w));
      }
      if (e->op == EK::Shl && isC(e->k[1])) return ExprPool::fold(e->op, w, concretizeVal(s, Val{0, e->k[0]}, w), e->k[1]->val);
      if (e->op == EK::ZExt) return concretizeVal(s, Val{0, e->k[0]}, e->k[0]->w);
    }
    for (int i = 0; i < 4096; i++) {
      uint64_t x = P.eval(v.e, s.model);
      Expr* eq = P.Eq(v.e, P.c(w, x));
      if (branch(s, eq)) return x;
    }
    error(s, "too many values when concretising");
  }
  // Code of the library (not the harness, the models or generated code) forks
  // where the compiler chose a value without a branch.
  bool forkHere(const Instruction* I) {
    const DILocation* l = I ? I->getDebugLoc().get() : nullptr;
    if (!l) return false;
    auto has = [](StringRef f) { return f.contains("/verif/") || f.starts_with("harness/") || f.starts_with("models/") || f.contains("/harness/") || f.contains("raft.pb."); };
    for (; l; l = l->getInlinedAt()) if (has(l->getFilename())) return false;
    if (auto* sp = I->getFunction()->getSubprogram()) if (has(sp->getFilename())) return false;
    return true;
  }
  // Does the path condition confine e (64 bits) to [-64, 64)?
  bool smallRange(State& s, Expr* e) {
    Expr* in = P.Ult(P.Add(e, P.c(64, 64)), P.c(64, 128));
    if (in->op == EK::Const) return in->val;
    if (hasFact(s, in)) return true;
    if (!P.eval(in, s.model)) return false;
    if (query(s, P.Not(in), nullptr) != 0) return false;
    s.known.push_back(in);
    return true;
  }
  void assume(State& s, Expr* c) {
    if (c->op == EK::Const) { if (!c->val) { nAssume++; throw PathEnd(); } return; }
    if (hasFact(s, c)) return;
    if (P.eval(c, s.model)) { addCond(s, c); return; }
    Model* m = nullptr;
    int r = query(s, c, &m);
    if (r <= 0) { nAssume++; throw PathEnd(); }
    addCond(s, c);
    setModel(s, m);
  }
  // All pending assertions must hold on this path.
  void flushAsserts(State& s) {
    if (s.asserts.empty()) return;
    auto as = std::move(s.asserts);
    auto info = std::move(s.assertInfo);
    s.asserts.clear();
    s.assertInfo.clear();
    // an assertion the current model already falsifies
    for (int round = 0; round < 64; round++) {
      Expr* all = P.t();
      for (auto* e : as) all = P.And(all, e);
      if (ExprPool::isTrue(all)) return;
      const Model* bad = nullptr;
      Model* m = nullptr;
      if (!P.eval(all, s.model)) bad = s.model;
      else {
        nAssertQ++;
        int r = query(s, P.Not(all), &m, true);
        if (r == 0) return;
        if (r < 0) return;
        bad = m;
      }
      std::vector<Expr*> rest;
      std::vector<std::pair<uint32_t, uint32_t>> rinfo;
      for (size_t i = 0; i < as.size(); i++) {
        if (!P.eval(as[i], bad)) addViolation(s, "assert", names[info[i].first], names[info[i].second], bad);
        else { rest.push_back(as[i]); rinfo.push_back(info[i]); }
      }
      if (m) { m->ref++; relModel(m); }
      as = rest;
      info = rinfo;
      if (as.empty()) return;
    }
  }

  // ---- memory ------------------------------------------------------------------
  uint64_t newObj(State& s, uint32_t size, uint8_t kind, bool undef) {
    uint32_t id;
    if (kind == 1) {
      // ids of dead stack objects rest for a while, so that a dangling pointer is seen
      if (s.freeStack.size() > 256) { id = s.freeStack.front(); s.freeStack.erase(s.freeStack.begin()); }
      else id = STACK0 + s.stackHigh++;
    } else {
      id = HEAP0 + s.nextHeap++;
    }
    Obj* o = new Obj(size, kind);
    if (undef && size) { o->needSt(); memset(o->st, 1, size); o->hasSpecial = true; }
    s.mem.set(id, o);
    return (uint64_t)id << 32;
  }

  uint64_t addrOf(State& s, Val a) { return a.e ? concretizeVal(s, a, 64) : a.v; }

  bool raceSkip = false;   // atomic accesses
  void raceAccess(State& s, uint64_t addr, uint64_t n, bool write) {
    uint32_t id = addr >> 32;
    if (raceSkip || (id >= STACK0 && id < HEAP0) || s.frames.empty() || s.frames.back().f->harness) return;
    if (s.race.use_count() > 1) s.race = std::make_shared<Race>(*s.race);
    Race& r = *s.race;
    if (!r.thr) return;
    r.acc.push_back({id, (uint32_t)addr, (uint32_t)n, r.seq++, (uint8_t)r.thr, write, intern(demangle(s.frames.back().f->name))});
  }
  void raceSync(State& s, uint64_t lock, unsigned kind) {
    if (!s.race) return;
    if (s.race.use_count() > 1) s.race = std::make_shared<Race>(*s.race);
    Race& r = *s.race;
    if (r.thr) r.sync.push_back({lock, r.seq++, (uint8_t)r.thr, kind <= 2, kind == 2 || kind == 4});
  }
  void raceThread(State& s, unsigned t) {
    if (t) {
      s.race = s.race ? std::make_shared<Race>(*s.race) : std::make_shared<Race>();
      s.race->thr = t;
      return;
    }
    if (!s.race) return;
    auto r = s.race;
    s.race.reset();
    for (auto& a : r->acc)
      for (auto& b : r->acc) {
        if (a.thr == b.thr || a.seq > b.seq || a.id != b.id || !(a.write || b.write)) continue;
        if (a.off + a.n <= b.off || b.off + b.n <= a.off) continue;
        bool ordered = false;
        for (auto& x : r->sync) {
          if (x.acquire || x.thr != a.thr || x.seq < a.seq) continue;
          for (auto& y : r->sync) if (y.acquire && y.thr == b.thr && y.lock == x.lock && y.seq > x.seq && y.seq < b.seq && (x.excl || y.excl)) { ordered = true; break; }
          if (ordered) break;
        }
        if (!ordered) violation(s, "race", std::string("data race: ") + (a.write ? "write" : "read") + " in " + names[a.func] + " and " + (b.write ? "write" : "read") + " in " + names[b.func]);
      }
  }

  Obj* access(State& s, uint64_t addr, uint64_t n, bool write, const char* what) {
    uint32_t id = addr >> 32, off = (uint32_t)addr;
    if (s.race) raceAccess(s, addr, n, write);
    Obj* o = s.mem.get(id);
    if (!o || (uint64_t)off + n > o->size) {
      std::string m;
      if (id == 0) m = std::string(what) + " through a null or invalid pointer";
      else if (!o) m = std::string(what) + (id >= HEAP0 ? " of freed memory" : " of dead or invalid memory");
      else m = std::string(what) + " out of bounds of its object";
      violation(s, "memory", m);
    }
    if (write) {
      if (o->kind == 3) violation(s, "memory", "write to constant memory");
      o = s.mem.wr(id);
    }
    return o;
  }
  Expr* undefByte(State& s, Obj* o, uint32_t i) {
    // a fresh arbitrary byte; the object remembers it
    uint64_t key = s.nextUndef++;
    auto it = undefVar.find(key);
    Expr* e;
    if (it != undefVar.end()) e = it->second;
    else { e = P.var("undef" + std::to_string(key), 8, true); undefVar[key] = e; }
    o->needSym();
    o->st[i] = 2;
    o->sym[i] = e;
    return e;
  }
  Expr* byteOf(Obj* o, uint32_t i) {
    uint8_t st = o->st ? o->st[i] : 0;
    if (st == 0) return P.c(8, o->data[i]);
    unsigned k = st - 2;
    Expr* e = o->sym[i];
    if (e->w <= 8) return e->w == 8 ? e : P.ZExt(e, 8);
    if ((k + 1) * 8 > e->w) return P.ZExt(P.Extract(e, k * 8, e->w - k * 8), 8);
    return P.Extract(e, k * 8, 8);
  }
  Val load(State& s, uint64_t addr, unsigned n, unsigned w) {
    Obj* o = access(s, addr, n, false, "read");
    uint32_t off = (uint32_t)addr;
    if (!o->hasSpecial) {
      uint64_t v = 0;
      memcpy(&v, o->data + off, n);
      return C(v & maskw(w));
    }
    bool conc = true, und = false;
    for (unsigned i = 0; i < n; i++) { if (o->st[off + i]) conc = false; if (o->st[off + i] == 1) und = true; }
    if (conc) {
      uint64_t v = 0;
      memcpy(&v, o->data + off, n);
      return C(v & maskw(w));
    }
    if (und) {
      o = s.mem.wr(addr >> 32);
      for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 1) undefByte(s, o, off + i);
    }
    // whole expression?
    Expr* e0 = o->sym ? o->sym[off] : nullptr;
    if (o->st[off] == 2 && e0 && (e0->w + 7) / 8 == n) {
      bool all = true;
      for (unsigned i = 1; i < n; i++) if (o->st[off + i] != 2 + i || o->sym[off + i] != e0) { all = false; break; }
      if (all) {
        Expr* r = e0;
        if (r->w > w) r = P.Extract(r, 0, w);
        else if (r->w < w) r = P.ZExt(r, w);
        return fromE(r);
      }
    }
    Expr* r = byteOf(o, off);
    for (unsigned i = 1; i < n; i++) r = P.Concat(byteOf(o, off + i), r);
    if (r->w > w) r = P.Extract(r, 0, w);
    return fromE(r);
  }
  static Val fromE(Expr* e) { return e->op == EK::Const ? C(e->val) : Val{0, e}; }
  Expr* toE(Val v, unsigned w) { return v.e ? v.e : P.c(w, v.v); }
  void store(State& s, uint64_t addr, unsigned n, Val v) {
    Obj* o = access(s, addr, n, true, "write");
    uint32_t off = (uint32_t)addr;
    if (!v.e) {
      memcpy(o->data + off, &v.v, n);
      if (o->hasSpecial) memset(o->st + off, 0, n);
      return;
    }
    o->needSym();
    o->hasSpecial = true;
    for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2 + i; o->sym[off + i] = v.e; }
  }
  void copyBytes(State& s, uint64_t d, uint64_t sr, uint64_t n) {
    if (n == 0) return;
    Obj* so = access(s, sr, n, false, "read");
    Obj* dd = access(s, d, n, true, "write");
    so = s.mem.get(sr >> 32);
    uint32_t so_ = (uint32_t)sr, do_ = (uint32_t)d;
    if (so->hasSpecial) {
      bool any = false;
      for (uint64_t i = 0; i < n; i++) if (so->st[so_ + i]) { any = true; break; }
      if (any) {
        if (so->sym) dd->needSym(); else dd->needSt();
        dd->hasSpecial = true;
        memmove(dd->st + do_, so->st + so_, n);
        if (so->sym) memmove(dd->sym + do_, so->sym + so_, n * sizeof(Expr*));
        memmove(dd->data + do_, so->data + so_, n);
        return;
      }
    }
    memmove(dd->data + do_, so->data + so_, n);
    if (dd->hasSpecial) memset(dd->st + do_, 0, n);
  }
  Val byteVal(State& s, uint64_t a) { return load(s, a, 1, 8); }
  // C string whose bytes must be concrete (forces them)
  std::string cstr(State& s, uint64_t a, size_t max = 1 << 20) {
    std::string r;
    for (size_t i = 0; i < max; i++) {
      Val b = load(s, a + i, 1, 8);
      uint64_t c = b.e ? concretizeVal(s, b, 8) : b.v;
      if (!c) break;
      r += (char)c;
    }
    return r;
  }

  // ---- main loop ---------------------------------------------------------------
  void pushFrame(State& s, Func* f, const Val* args, uint32_t n, int32_t dst, uint32_t rs, int32_t normal) {
    if (!f->decoded) decode(f);
    f->hit = true;
    if (s.frames.size() > 2000) violation(s, "nontermination", "call depth exceeds 2000");
    Frame fr;
    fr.f = f;
    fr.base = s.regs.size();
    fr.pc = 0;
    fr.dst = dst;
    fr.retSlots = rs;
    fr.normalEdge = normal;
    fr.allocaMark = s.allocas.size();
    s.regs.resize(fr.base + f->nregs);
    for (uint32_t i = 0; i < n && i < f->nargs; i++) s.regs[fr.base + i] = args[i];
    s.frames.push_back(fr);
  }
  void popAllocas(State& s, uint32_t mark) {
    while (s.allocas.size() > mark) {
      uint32_t id = s.allocas.back();
      s.allocas.pop_back();
      s.mem.set(id, nullptr);
      s.freeStack.push_back(id);
    }
  }
  void takeEdge(State& s, Frame& fr, uint32_t e) {
    Edge& ed = fr.f->edges[e];
    size_t n = ed.copies.size();
    Val* r = &s.regs[fr.base];
    if (n == 1) r[ed.copies[0].first] = rd(r, ed.copies[0].second);
    else if (n) {
      Val tmp[64];
      std::vector<Val> big;
      Val* t = tmp;
      if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = rd(r, ed.copies[i].second);
      for (size_t i = 0; i < n; i++) r[ed.copies[i].first] = t[i];
    }
    fr.pc = ed.pc;
  }
  inline Val rd(const Val* r, int32_t o) const { return o >= 0 ? r[o] : consts[~o]; }

  Expr* binE(unsigned opc, Expr* a, Expr* b) {
    switch (opc) {
      case Instruction::Add: return P.Add(a, b);
      case Instruction::Sub: return P.Sub(a, b);
      case Instruction::Mul: return P.Mul(a, b);
      case Instruction::UDiv: return P.Div(EK::UDiv, a, b);
      case Instruction::SDiv: return P.Div(EK::SDiv, a, b);
      case Instruction::URem: return P.Div(EK::URem, a, b);
      case Instruction::SRem: return P.Div(EK::SRem, a, b);
      case Instruction::And: return P.And(a, b);
      case Instruction::Or: return P.Or(a, b);
      case Instruction::Xor: return P.Xor(a, b);
      case Instruction::Shl: return P.Shl(a, b);
      case Instruction::LShr: return P.LShr(a, b);
      case Instruction::AShr: return P.AShr(a, b);
      default: return nullptr;
    }
  }
  Expr* cmpE(unsigned p, Expr* a, Expr* b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return P.Eq(a, b);
      case CmpInst::ICMP_NE: return P.Not(P.Eq(a, b));
      case CmpInst::ICMP_ULT: return P.Ult(a, b);
      case CmpInst::ICMP_ULE: return P.Ule(a, b);
      case CmpInst::ICMP_UGT: return P.Ult(b, a);
      case CmpInst::ICMP_UGE: return P.Ule(b, a);
      case CmpInst::ICMP_SLT: return P.Slt(a, b);
      case CmpInst::ICMP_SLE: return P.Sle(a, b);
      case CmpInst::ICMP_SGT: return P.Slt(b, a);
      case CmpInst::ICMP_SGE: return P.Sle(b, a);
      default: return nullptr;
    }
  }
  static bool cmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) {
      case CmpInst::ICMP_EQ: return a == b;
      case CmpInst::ICMP_NE: return a != b;
      case CmpInst::ICMP_ULT: return a < b;
      case CmpInst::ICMP_ULE: return a <= b;
      case CmpInst::ICMP_UGT: return a > b;
      case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w);
      case CmpInst::ICMP_SLE: return sextw(a, w) <= sextw(b, w);
      case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w);
      case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
      default: return false;
    }
  }

  void callFunc(State& s, CallInfo& ci, int32_t dst) {
    Frame& fr = s.frames.back();
    Val* r = &s.regs[fr.base];
    Func* f = ci.callee;
    if (!f) {
      uint64_t a = addrOf(s, rd(r, ci.fnop));
      uint64_t k = (uint32_t)a / 16;
      if ((a >> 32) != 1 || (a & 15) || k == 0 || k > fnTab.size()) violation(s, "memory", "call through an invalid function pointer");
      f = fnTab[k - 1];
    }
    if (f->native) {
      f->native(*this, s, ci, dst);
      Frame& fr2 = s.frames.back();
      if (ci.normal >= 0) takeEdge(s, fr2, ci.normal); else fr2.pc++;
      return;
    }
    if (f->isDecl) {
      error(s, "unsupported external function " + demangle(f->name));
    }
    uint32_t n = ci.args.size();
    Val tmp[32];
    std::vector<Val> big;
    Val* t = tmp;
    if (n > 32) { big.resize(n); t = big.data(); }
    for (uint32_t i = 0; i < n; i++) t[i] = rd(r, ci.args[i]);
    std::vector<uint32_t> bv;
    for (auto& b : ci.byval) {
      uint64_t src = addrOf(s, t[b.first]);
      uint64_t d = newObj(s, b.second, 1, true);
      bv.push_back(d >> 32);
      copyBytes(s, d, src, b.second);
      t[b.first] = C(d);
    }
    uint64_t va = 0;
    if (f->vararg) {
      uint32_t extra = n > ci.nfixed ? n - ci.nfixed : 0;
      va = newObj(s, extra * 8 + 8, 1, false);
      bv.push_back(va >> 32);
      for (uint32_t i = 0; i < extra; i++) {
        Val x = t[ci.nfixed + i];
        if (x.e && x.e->w < 64) x = fromE(P.ZExt(x.e, 64));
        store(s, va + 8 * i, 8, x);
      }
    }
    int32_t dabs = s.frames.back().base + dst;
    pushFrame(s, f, t, n, dabs, ci.retSlots, ci.normal);
    for (auto id : bv) s.allocas.push_back(id);
    s.frames.back().vaObj = va >> 32;
  }

  // Run one state until its path ends.
  void runState(State& s) {
    for (;;) {
      Frame& fr = s.frames.back();
      Func* f = fr.f;
      Val* r = &s.regs[fr.base];
      const DInst* code = f->code.data();
      bool refresh = false;
      while (!refresh) {
        const DInst& d = code[fr.pc];
        if ((++s.insts & 0xfff) == 0) {
          nInst += 0x1000;
          if (s.insts > maxInsts) violation(s, "nontermination", "no end after " + std::to_string(maxInsts) + " instructions");
          if (sh->stop.load(std::memory_order_relaxed)) { stopNow(s); }
          if ((s.insts & 0x3ffff) == 0) checkStop();
        }
        switch (d.op) {
          case O_BIN: {
            Val a = rd(r, d.a), b = rd(r, d.b);
            if (!a.e && !b.e) {
              uint64_t v = 0, m = maskw(d.w);
              switch (d.sub) {
                case Instruction::Add: v = a.v + b.v; break;
                case Instruction::Sub: v = a.v - b.v; break;
                case Instruction::Mul: v = a.v * b.v; break;
                case Instruction::And: v = a.v & b.v; break;
                case Instruction::Or: v = a.v | b.v; break;
                case Instruction::Xor: v = a.v ^ b.v; break;
                case Instruction::Shl: v = b.v >= d.w ? 0 : a.v << b.v; break;
                case Instruction::LShr: v = b.v >= d.w ? 0 : a.v >> b.v; break;
                case Instruction::AShr: v = ExprPool::fold(EK::AShr, d.w, a.v, b.v); break;
                default:
                  if (b.v == 0) violation(s, "arithmetic", "division by zero");
                  if (d.sub == Instruction::UDiv) v = a.v / b.v;
                  else if (d.sub == Instruction::URem) v = a.v % b.v;
                  else if (d.sub == Instruction::SDiv) v = ExprPool::fold(EK::SDiv, d.w, a.v, b.v);
                  else v = ExprPool::fold(EK::SRem, d.w, a.v, b.v);
              }
              r[d.dst] = C(v & m);
            } else {
              Expr *ea = toE(a, d.w), *eb = toE(b, d.w);
              if (d.sub == Instruction::UDiv || d.sub == Instruction::URem || d.sub == Instruction::SDiv || d.sub == Instruction::SRem) {
                if (branch(s, P.Eq(eb, P.c(d.w, 0)))) violation(s, "arithmetic", "division by zero");
              }
              r[d.dst] = fromE(binE(d.sub, ea, eb));
            }
            fr.pc++;
            break;
          }
          case O_ICMP: {
            Val a = rd(r, d.a), b = rd(r, d.b);
            if (!a.e && !b.e) r[d.dst] = C(cmpC(d.sub, a.v, b.v, d.w));
            else r[d.dst] = fromE(cmpE(d.sub, toE(a, d.w), toE(b, d.w)));
            fr.pc++;
            break;
          }
          case O_SELECT: {
            Val c = rd(r, d.a);
            if (c.e) {
              Val a, b;
              if (d.n == 1 && !d.w2 && (!forkHere(d.I) || d.w == 1 || (!rd(r, d.b).e && !rd(r, d.c).e && d.w < 64))) {
                a = rd(r, d.b); b = rd(r, d.c);
                r[d.dst] = fromE(P.Ite(c.e, toE(a, d.w), toE(b, d.w)));
                fr.pc++;
                break;
              }
              c = C(branch(s, c.e));
            }
            if (d.n == 1 && !isAgg(d.I->getType())) r[d.dst] = c.v ? rd(r, d.b) : rd(r, d.c);
            else {
              auto& l = f->lists[c.v ? d.ext : d.ext + 1].first;
              std::vector<Val> t;
              for (auto o : l) t.push_back(rd(r, o));
              for (size_t i = 0; i < t.size(); i++) r[d.dst + i] = t[i];
            }
            fr.pc++;
            break;
          }
          case O_CAST: {
            Val a = rd(r, d.a);
            if (!a.e) {
              uint64_t v = a.v;
              if (d.sub == Instruction::SExt) v = (uint64_t)sextw(v, d.w2);
              r[d.dst] = C(v & maskw(d.w));
            } else {
              Expr* e = a.e;
              if (d.w2 == 1 && d.w == 64 && d.sub == Instruction::SExt && forkHere(d.I)) e = branch(s, e) ? P.c(64, d.sub == Instruction::SExt ? ~0ull : 1) : P.c(64, 0);
              else if (d.w < d.w2) e = P.Extract(e, 0, d.w);
              else if (d.w > d.w2) e = d.sub == Instruction::SExt ? P.SExt(e, d.w) : P.ZExt(e, d.w);
              r[d.dst] = fromE(e);
            }
            fr.pc++;
            break;
          }
          case O_LOAD: {
            uint64_t a = addrOf(s, rd(r, d.a));
            raceSkip = d.sub;
            r[d.dst] = load(s, a, d.n, d.w);
            raceSkip = false;
            fr.pc++;
            break;
          }
          case O_STORE: {
            uint64_t a = addrOf(s, rd(r, d.a));
            raceSkip = d.sub;
            store(s, a, d.n, rd(r, d.b));
            raceSkip = false;
            fr.pc++;
            break;
          }
          case O_GEP: {
            GepInfo& g = f->geps[d.ext];
            Val b = rd(r, d.a);
            uint64_t k = g.off;
            Expr* e = nullptr;
            if (b.e) e = b.e; else k += b.v;
            for (size_t i = 0; i < g.var.size(); i++) {
              Val x = rd(r, g.var[i].first);
              // an index that can only be small is settled here, which keeps pointers concrete
              if (x.e) {
                Expr* w64 = P.SExt(x.e, 64);
                if (smallRange(s, w64)) x = C(concretizeVal(s, x, g.vw[i]));
              }
              if (!x.e) k += (uint64_t)sextw(x.v, g.vw[i]) * g.var[i].second;
              else {
                Expr* t = P.Mul(P.SExt(x.e, 64), P.c(64, g.var[i].second));
                e = e ? P.Add(e, t) : t;
              }
            }
            if (!e) r[d.dst] = C(k); else r[d.dst] = fromE(P.Add(e, P.c(64, k)));
            fr.pc++;
            break;
          }
          case O_ALLOCA: {
            uint64_t n = rd(r, d.a).e ? concretizeVal(s, rd(r, d.a), d.w) : rd(r, d.a).v;
            uint64_t a = newObj(s, n * d.n, 1, true);
            s.allocas.push_back(a >> 32);
            r[d.dst] = C(a);
            fr.pc++;
            break;
          }
          case O_BR: takeEdge(s, fr, d.ext); break;
          case O_CONDBR: {
            Val c = rd(r, d.a);
            bool t = c.e ? branch(s, c.e) : c.v;
            takeEdge(s, fr, t ? d.ext : d.n);
            break;
          }
          case O_SWITCH: {
            Val c = rd(r, d.a);
            SwitchInfo& si = f->switches[d.ext];
            uint32_t e = si.def;
            if (!c.e) { for (auto& k : si.cases) if (k.first == c.v) { e = k.second; break; } }
            else for (auto& k : si.cases) if (branch(s, P.Eq(c.e, P.c(d.w, k.first)))) { e = k.second; break; }
            takeEdge(s, fr, e);
            break;
          }
          case O_COPY: {
            auto& l = f->lists[d.ext].first;
            if (l.size() == 1) r[d.dst] = rd(r, l[0]);
            else {
              std::vector<Val> t;
              for (auto o : l) t.push_back(rd(r, o));
              for (size_t i = 0; i < t.size(); i++) r[d.dst + i] = t[i];
            }
            fr.pc++;
            break;
          }
          case O_CALL:
            callFunc(s, f->calls[d.ext], d.dst);
            refresh = true;
            break;
          case O_RET: {
            Val rv[16];
            uint32_t n = 0;
            if (d.n) for (auto o : f->lists[d.ext].first) rv[n++] = rd(r, o);
            Frame old = fr;
            popAllocas(s, old.allocaMark);
            s.frames.pop_back();
            s.regs.resize(old.base);
            if (s.frames.empty()) return;
            for (uint32_t i = 0; i < n && i < old.retSlots; i++) s.regs[old.dst + i] = rv[i];
            Frame& cf = s.frames.back();
            if (old.normalEdge >= 0) takeEdge(s, cf, old.normalEdge); else cf.pc++;
            refresh = true;
            break;
          }
          case O_UNREACHABLE:
            violation(s, "unreachable", d.sub ? "trap executed" : "undefined behaviour: unreachable code reached");
          case O_RESUME:
            error(s, "exception handling reached");
          case O_RMW: {
            uint64_t a = addrOf(s, rd(r, d.a));
            raceSkip = true;
            Val o = load(s, a, d.n, d.w), b = rd(r, d.b);
            Expr *eo = toE(o, d.w), *eb = toE(b, d.w), *n = nullptr;
            switch (d.sub) {
              case AtomicRMWInst::Xchg: n = eb; break;
              case AtomicRMWInst::Add: n = P.Add(eo, eb); break;
              case AtomicRMWInst::Sub: n = P.Sub(eo, eb); break;
              case AtomicRMWInst::And: n = P.And(eo, eb); break;
              case AtomicRMWInst::Or: n = P.Or(eo, eb); break;
              case AtomicRMWInst::Xor: n = P.Xor(eo, eb); break;
              default: error(s, "unsupported atomicrmw");
            }
            store(s, a, d.n, fromE(n));
            raceSkip = false;
            r[d.dst] = o;
            fr.pc++;
            break;
          }
          case O_CMPXCHG: {
            uint64_t a = addrOf(s, rd(r, d.a));
            raceSkip = true;
            Val o = load(s, a, d.n, d.w);
            raceSkip = false;
            bool eq = branch(s, P.Eq(toE(o, d.w), toE(rd(r, d.b), d.w)));
            raceSkip = true;
            if (eq) store(s, a, d.n, rd(r, d.c));
            raceSkip = false;
            r[d.dst] = o;
            r[d.dst + 1] = C(eq);
            fr.pc++;
            break;
          }
          case O_MINMAX: {
            Expr *a = toE(rd(r, d.a), d.w), *b = toE(rd(r, d.b), d.w);
            Expr* o;
            if ((d.ext == Intrinsic::umax || d.ext == Intrinsic::umin || d.ext == Intrinsic::smax || d.ext == Intrinsic::smin) && forkHere(d.I)) {
              bool sg = d.ext == Intrinsic::smax || d.ext == Intrinsic::smin;
              bool lt = branch(s, sg ? P.Slt(a, b) : P.Ult(a, b));
              bool mn = d.ext == Intrinsic::umin || d.ext == Intrinsic::smin;
              r[d.dst] = fromE(lt == mn ? a : b);
              fr.pc++;
              break;
            }
            switch (d.ext) {
              case Intrinsic::umax: o = P.Ite(P.Ult(b, a), a, b); break;
              case Intrinsic::umin: o = P.Ite(P.Ult(a, b), a, b); break;
              case Intrinsic::smax: o = P.Ite(P.Slt(b, a), a, b); break;
              case Intrinsic::smin: o = P.Ite(P.Slt(a, b), a, b); break;
              case Intrinsic::usub_sat: o = P.Ite(P.Ult(a, b), P.c(d.w, 0), P.Sub(a, b)); break;
              default: { Expr* t = P.Add(a, b); o = P.Ite(P.Ult(t, a), P.c(d.w, ~0ull), t); break; }
            }
            r[d.dst] = fromE(o);
            fr.pc++;
            break;
          }
          case O_ABS: {
            Expr* a = toE(rd(r, d.a), d.w);
            r[d.dst] = fromE(P.Ite(P.Slt(a, P.c(d.w, 0)), P.Sub(P.c(d.w, 0), a), a));
            fr.pc++;
            break;
          }
          case O_FSH: {
            Expr *a = toE(rd(r, d.a), d.w), *b = toE(rd(r, d.b), d.w);
            uint64_t k = concretizeVal(s, rd(r, d.c), d.w) % d.w;
            Expr* o;
            if (d.sub) o = k == 0 ? b : P.Or(P.Shl(a, P.c(d.w, d.w - k)), P.LShr(b, P.c(d.w, k)));
            else o = k == 0 ? a : P.Or(P.Shl(a, P.c(d.w, k)), P.LShr(b, P.c(d.w, d.w - k)));
            r[d.dst] = fromE(o);
            fr.pc++;
            break;
          }
          case O_BITOP: {
            Val a = rd(r, d.a);
            if (a.e) {
              if (d.ext == Intrinsic::ctlz || d.ext == Intrinsic::cttz) {
                Expr* o = P.c(d.w, d.w);
                for (int i = 0; i < d.w; i++) {
                  unsigned bit = d.ext == Intrinsic::ctlz ? i : d.w - 1 - i;
                  unsigned val = d.ext == Intrinsic::ctlz ? d.w - 1 - i : d.w - 1 - i;
                  o = P.Ite(P.Extract(a.e, bit, 1), P.c(d.w, val), o);
                }
                r[d.dst] = fromE(o);
              } else if (d.ext == Intrinsic::bswap) {
                Expr* o = nullptr;
                for (int i = 0; i < d.w / 8; i++) { Expr* b = P.Extract(a.e, i * 8, 8); o = o ? P.Concat(o, b) : b; }
                r[d.dst] = fromE(o);
              } else {
                Expr* o = P.c(d.w, 0);
                for (int i = 0; i < d.w; i++) o = P.Add(o, P.ZExt(P.Extract(a.e, i, 1), d.w));
                r[d.dst] = fromE(o);
              }
            } else {
              uint64_t v = a.v;
              uint64_t o = 0;
              if (d.ext == Intrinsic::ctlz) o = v ? __builtin_clzll(v) - (64 - d.w) : d.w;
              else if (d.ext == Intrinsic::cttz) o = v ? __builtin_ctzll(v) : d.w;
              else if (d.ext == Intrinsic::ctpop) o = __builtin_popcountll(v);
              else o = __builtin_bswap64(v) >> (64 - d.w);
              r[d.dst] = C(o);
            }
            fr.pc++;
            break;
          }
          case O_WOVF: {
            Expr *a = toE(rd(r, d.a), d.w), *b = toE(rd(r, d.b), d.w);
            Expr *o, *ov;
            switch (d.ext) {
              case Intrinsic::uadd_with_overflow: o = P.Add(a, b); ov = P.Ult(o, a); break;
              case Intrinsic::usub_with_overflow: o = P.Sub(a, b); ov = P.Ult(a, b); break;
              case Intrinsic::umul_with_overflow: {
                if (!ExprPool::isC(a) && !ExprPool::isC(b)) error(s, "symbolic multiply with overflow");
                if (ExprPool::isC(a)) std::swap(a, b);
                o = P.Mul(a, b);
                ov = b->val == 0 ? P.f() : P.Ult(P.c(d.w, maskw(d.w) / b->val), a);
                break;
              }
              case Intrinsic::sadd_with_overflow: {
                o = P.Add(a, b);
                Expr* z = P.c(d.w, 0);
                Expr *na = P.Slt(a, z), *nb = P.Slt(b, z), *no = P.Slt(o, z);
                ov = P.And(P.Eq(na, nb), P.Xor(na, no));
                break;
              }
              case Intrinsic::ssub_with_overflow: {
                o = P.Sub(a, b);
                Expr* z = P.c(d.w, 0);
                Expr *na = P.Slt(a, z), *nb = P.Slt(b, z), *no = P.Slt(o, z);
                ov = P.And(P.Xor(na, nb), P.Xor(na, no));
                break;
              }
              default:
                if (!ExprPool::isC(a) || !ExprPool::isC(b)) error(s, "symbolic signed multiply with overflow");
                {
                  __int128 p = (__int128)sextw(a->val, d.w) * sextw(b->val, d.w);
                  o = P.c(d.w, (uint64_t)p);
                  ov = P.c(1, p != (__int128)sextw((uint64_t)p & maskw(d.w), d.w));
                }
            }
            r[d.dst] = fromE(o);
            r[d.dst + 1] = fromE(ov);
            fr.pc++;
            break;
          }
          case O_FBIN: case O_FCMP: case O_FCAST: case O_FNEG:
            floatOp(s, d, r);
            fr.pc++;
            break;
          case O_NOP: fr.pc++; break;
          default: {
            std::string t;
            raw_string_ostream os(t);
            d.I->print(os);
            error(s, "unsupported instruction " + t);
          }
        }
      }
    }
  }
  static double fget(uint64_t v, unsigned w) {
    if (w == 32) { float x; uint32_t y = v; memcpy(&x, &y, 4); return x; }
    double x; memcpy(&x, &v, 8); return x;
  }
  static uint64_t fput(double x, unsigned w) {
    if (w == 32) { float y = x; uint32_t z; memcpy(&z, &y, 4); return z; }
    uint64_t v; memcpy(&v, &x, 8); return v;
  }
  void floatOp(State& s, const DInst& d, Val* r) {
    Val a = rd(r, d.a), b = (d.op == O_FBIN || d.op == O_FCMP) ? rd(r, d.b) : Val();
    uint64_t av = a.e ? concretizeVal(s, a, d.op == O_FCAST ? d.w2 : d.w) : a.v;
    uint64_t bv = b.e ? concretizeVal(s, b, d.w) : b.v;
    if (d.op == O_FBIN) {
      double x = fget(av, d.w), y = fget(bv, d.w), z = 0;
      switch (d.sub) {
        case Instruction::FAdd: z = x + y; break;
        case Instruction::FSub: z = x - y; break;
        case Instruction::FMul: z = x * y; break;
        case Instruction::FDiv: z = x / y; break;
        case Instruction::FRem: z = fmod(x, y); break;
      }
      r[d.dst] = C(fput(z, d.w));
    } else if (d.op == O_FCMP) {
      double x = fget(av, d.w), y = fget(bv, d.w);
      bool un = x != x || y != y, z = false;
      switch (d.sub & 7) {
        case 0: z = false; break;
        case 1: z = !un && x == y; break;
        case 2: z = !un && x > y; break;
        case 3: z = !un && x >= y; break;
        case 4: z = !un && x < y; break;
        case 5: z = !un && x <= y; break;
        case 6: z = !un && x != y; break;
        case 7: z = !un; break;
      }
      if (d.sub & 8) { z = z || un; if ((d.sub & 7) == 0) z = un; if ((d.sub & 7) == 7) z = true; }
      r[d.dst] = C(z);
    } else if (d.op == O_FNEG) {
      r[d.dst] = C(fput(-fget(av, d.w), d.w));
    } else {
      switch (d.sub) {
        case Instruction::UIToFP: r[d.dst] = C(fput((double)av, d.w)); break;
        case Instruction::SIToFP: r[d.dst] = C(fput((double)sextw(av, d.w2), d.w)); break;
        case Instruction::FPToUI: r[d.dst] = C((uint64_t)fget(av, d.w2) & maskw(d.w)); break;
        case Instruction::FPToSI: r[d.dst] = C((uint64_t)(int64_t)fget(av, d.w2) & maskw(d.w)); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r[d.dst] = C(fput(fget(av, d.w2), d.w)); break;
        default: error(s, "unsupported float cast");
      }
    }
  }
  [[noreturn]] void stopNow(State& s) {
    nUnexplored++;
    entryUnexplored[s.entry]++;
    incomplete = true;
    throw PathEnd();
  }

  void sample(State& s) {
    uint64_t k = sh->samples[s.entry % 64].fetch_add(1);
    // the first few, then ever rarer ones
    bool take = k < sampleCap / 2;
    if (!take) {
      uint64_t h = (k + seed * 7919) * 0x9E3779B97F4A7C15ull;
      take = (h >> 33) % (k + 1) < sampleCap / 4;
    }
    if (!take) return;
    Sample x;
    x.entry = s.entry;
    x.syms = concretize(s, s.model);
    for (auto& e : s.emits) x.emits.push_back(e.e ? P.eval(e.e, s.model) : e.v);
    samples.push_back(std::move(x));
  }

  void explore() {
    for (;;) {
      State* s = nullptr;
      try {
        while (!pending.empty()) {
          s = pending.back();
          pending.pop_back();
          if (sh->stop.load()) {
            nUnexplored++;
            entryUnexplored[s->entry]++;
            incomplete = true;
            destroy(s);
            s = nullptr;
            continue;
          }
          try {
            runState(*s);
            flushAsserts(*s);
            nPaths++;
            entryPaths[s->entry]++;
            sh->paths++;
            sample(*s);
          } catch (PathEnd&) {
            try { if (!s->asserts.empty() && s->frames.size()) flushAsserts(*s); } catch (PathEnd&) {}
            sh->paths++;
          }
          destroy(s);
          s = nullptr;
          donate();
        }
        return;
      } catch (ChildStart&) {
        s = nullptr;
      }
    }
  }

  void writeResults() {
    std::string fn = outdir + "/res." + std::to_string(getpid()) + ".json";
    FILE* f = fopen((fn + ".tmp").c_str(), "w");
    for (auto& x : forkLoc) fprintf(stderr, "FORK %ld %s\n", x.second, x.first.c_str());
    fprintf(f, "{\"paths\":%lu,\"assumed_away\":%lu,\"forks\":%lu,\"queries\":%lu,\"solved\":%lu,\"dl\":%lu,\"dl_checked\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,"
            "\"instructions\":%lu,\"assertions\":%lu,\"assert_queries\":%lu,\"solver_s\":%.4f,\"unexplored\":%lu,\"incomplete\":%s,",
            nPaths, nAssume, nForks, nQ, nSolved, nDL, nDLCheck, nSat, nUnsat, nUnknown, nInst, nAsserts, nAssertQ, tSolver, nUnexplored, incomplete ? "true" : "false");
    auto arr = [&](const char* n, const std::vector<uint64_t>& v) {
      fprintf(f, "\"%s\":[", n);
      for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%lu", i ? "," : "", v[i]);
      fprintf(f, "],");
    };
    arr("entry_paths", entryPaths);
    arr("entry_unexplored", entryUnexplored);
    arr("entry_asserts", entryAsserts);
    fprintf(f, "\"reached\":[");
    bool first = true;
    for (auto& x : reached) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(f, "],\"errors\":{");
    first = true;
    for (auto& x : errors) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
    fprintf(f, "},\"functions\":[");
    first = true;
    for (auto* x : fnById)
      if (x->hit && x->F->getSubprogram()) {
        fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",", jesc(demangle(x->name)).c_str(), jesc(x->F->getSubprogram()->getFilename().str()).c_str());
        first = false;
      }
    auto wsyms = [&](const std::vector<std::tuple<std::string, unsigned, uint64_t>>& v) {
      fprintf(f, "\"syms\":[");
      for (size_t i = 0; i < v.size(); i++)
        fprintf(f, "%s[\"%s\",%u,\"%lu\"]", i ? "," : "", jesc(std::get<0>(v[i])).c_str(), std::get<1>(v[i]), std::get<2>(v[i]));
      fprintf(f, "]");
    };
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : viols) {
      fprintf(f, "%s{\"entry\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":[", first ? "" : ",", entries[v.entry].c_str(), jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str());
      for (size_t i = 0; i < v.stack.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(v.stack[i]).c_str());
      fprintf(f, "],");
      wsyms(v.syms);
      fprintf(f, "}");
      first = false;
    }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& v : samples) {
      fprintf(f, "%s{\"entry\":\"%s\",\"emits\":[", first ? "" : ",", entries[v.entry].c_str());
      for (size_t i = 0; i < v.emits.size(); i++) fprintf(f, "%s\"%lu\"", i ? "," : "", v.emits[i]);
      fprintf(f, "],");
      wsyms(v.syms);
      fprintf(f, "}");
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename((fn + ".tmp").c_str(), fn.c_str());
  }

  void installNatives();
  void setup(const std::string& bc);
};

#include "natives.h"

void Ex::setup(const std::string& bc) {
  SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symx", errs()); exit(3); }
  DL = &M->getDataLayout();
  installNatives();
}

int main(int argc, char** argv) {
  std::string bc;
  Ex* exp = new Ex();
  Ex& ex = *exp;
  double budget = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") bc = nxt();
    else if (a == "--out") ex.outdir = nxt();
    else if (a == "--budget") budget = atof(nxt().c_str());
    else if (a == "--jobs") ex.jobs = atoi(nxt().c_str());
    else if (a == "--entry") ex.entries.push_back(nxt());
    else if (a == "--grace") ex.grace = atof(nxt().c_str());
    else if (a == "--samples") ex.sampleCap = atoi(nxt().c_str());
    else if (a == "--seed") ex.seed = atoi(nxt().c_str());
    else if (a == "--max-insts") ex.maxInsts = strtoull(nxt().c_str(), nullptr, 10);
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  ex.t0 = now();
  ex.deadline = ex.t0 + budget;
  ex.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ex.sh->active = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  ex.setup(bc);
  ex.initSolver();
  State* base = new State();
  Model* m0 = new Model();
  m0->uid = ex.modelUid++;
  m0->ref = 1;
  base->model = m0;
  // globals
  uint32_t gid = 2;
  for (auto& g : ex.M->globals()) ex.gaddr[&g] = (uint64_t)gid++ << 32;
  if (gid >= Ex::STACK0) { fprintf(stderr, "too many globals\n"); return 3; }
  for (auto& g : ex.M->globals()) {
    uint64_t sz = g.hasInitializer() ? (uint64_t)ex.DL->getTypeAllocSize(g.getValueType()) : 512;
    Obj* o = new Obj(sz, g.isConstant() && g.hasInitializer() ? 3 : 2);
    if (g.hasInitializer()) ex.writeConst(o, 0, g.getInitializer());
    base->mem.set(ex.gaddr[&g] >> 32, o);
  }
  base->mem.set(gid, new Obj(8, 2));
  ex.errnoAddr = (uint64_t)gid++ << 32;
  ex.entryPaths.resize(ex.entries.size());
  ex.entryUnexplored.resize(ex.entries.size());
  ex.entryAsserts.resize(ex.entries.size());
  // constructors
  std::vector<std::pair<uint64_t, const Function*>> ctors;
  if (auto* g = ex.M->getNamedGlobal("llvm.global_ctors"))
    if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : arr->operands()) {
        auto* st = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(st->getOperand(1))) ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    try {
      ex.pushFrame(*base, ex.getFunc(c.second), nullptr, 0, 0, 0, -1);
      ex.runState(*base);
    } catch (PathEnd&) {
      for (auto& e : ex.errors) fprintf(stderr, "constructor failed: %s\n", e.first.c_str());
      for (auto& v : ex.viols) fprintf(stderr, "constructor failed: %s %s\n", v.kind.c_str(), v.msg.c_str());
      return 3;
    }
  }
  if (!ex.pending.empty()) { fprintf(stderr, "constructors forked\n"); return 3; }
  base->insts = 0;
  for (size_t i = ex.entries.size(); i-- > 0;) {
    Function* F = ex.M->getFunction(ex.entries[i]);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", ex.entries[i].c_str()); return 3; }
    State* s = ex.clone(*base);
    s->entry = i;
    ex.pushFrame(*s, ex.getFunc(F), nullptr, 0, 0, 0, -1);
    ex.pending.push_back(s);
  }
  if (getenv("SYMX_VERBOSE")) fprintf(stderr, "setup %.2fs\n", now() - ex.t0);
  ex.explore();
  ex.writeResults();
  ex.sh->active--;
  if (ex.isChild) _exit(0);
  int bad = 0;
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      bad++;
      fprintf(stderr, "worker %d ended abnormally (status %x)\n", p, st);
    }
  }
  if (getenv("SYMX_VERBOSE")) fprintf(stderr, "total %.2fs, %lu paths\n", now() - ex.t0, (unsigned long)ex.sh->paths.load());
  return bad ? 4 : 0;
}
