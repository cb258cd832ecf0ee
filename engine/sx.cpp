// Symbolic executor for LLVM IR: the deciding engine of /verif.
// Paths are explored by fork()ing the interpreter process on symbolic branches.
#include "sx.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace llvm;
static Shared *S;
static int g_out = -1;
static double g_deadline = 0;
static uint64_t g_maxSteps = 20000000ULL;
static unsigned g_maxForks = 4000, g_rlimit = 20000000;
static int g_verbose = 0;
static bool g_crashIsViolation = true;
static std::string g_harness;
static int g_maxViolPerLabel = 2;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t usNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }

static std::string jesc(const std::string &s) {
  std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
  return r;
}
static void emit(const std::string &s) { std::string t = s + "\n"; ssize_t r = write(g_out, t.data(), t.size()); (void)r; }

// ------------------------------------------------------------------ memory
static const uint64_t ABASE = 0x200000000000ULL;
static const uint64_t ASIZE = 24ULL << 30;
static uint8_t *g_meta; // one byte per arena byte: 0 uninit 1 concrete 2 symbolic start 3 symbolic continuation
static uint32_t *g_gran; // per 16 bytes: object id
struct Obj { uint64_t base, size; uint8_t state; uint8_t kind; }; // state 1 live, 2 freed
static std::vector<Obj> g_objs;
static uint64_t g_brk = ABASE + 4096;
struct SymEnt { const Expr *e; uint32_t n; };
static std::unordered_map<uint64_t, SymEnt> g_sym;
static std::map<uint64_t, std::vector<uint32_t>> g_freeAlloca; // size class -> ids
enum { OK_HEAP = 1, OK_STACK = 2, OK_GLOBAL = 3 };

static void *mmapAt(uint64_t at, uint64_t n) {
  void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return p;
}
static void memInit() {
  mmapAt(ABASE, ASIZE);
  g_meta = (uint8_t *)mmapAt(0, ASIZE);
  g_gran = (uint32_t *)mmapAt(0, ASIZE / 16 * 4);
  g_objs.push_back({0, 0, 0, 0});
}
struct PathEnd { int why; };
[[noreturn]] static void endPath(const char *status);
[[noreturn]] static void pathUnsup(const std::string &why);

static uint64_t memAlloc(uint64_t size, uint8_t kind, uint64_t align = 16) {
  if (size > (4ULL << 30)) pathUnsup("huge allocation");
  uint64_t cls = (size + 15) & ~15ULL; if (!cls) cls = 16;
  if (kind == OK_STACK) {
    auto it = g_freeAlloca.find(cls);
    if (it != g_freeAlloca.end() && !it->second.empty()) {
      uint32_t id = it->second.back(); it->second.pop_back();
      Obj &o = g_objs[id]; o.state = 1; o.size = size;
      memset(g_meta + (o.base - ABASE), 0, cls);
      return o.base;
    }
  }
  if (align < 16) align = 16;
  uint64_t a = (g_brk + align - 1) & ~(align - 1);
  g_brk = a + cls + 32;
  if (g_brk > ABASE + ASIZE) pathUnsup("arena exhausted");
  uint32_t id = g_objs.size();
  g_objs.push_back({a, size, 1, kind});
  for (uint64_t g = (a - ABASE) / 16; g < (a - ABASE + cls) / 16; g++) g_gran[g] = id;
  return a;
}
static inline Obj *objAt(uint64_t a) {
  if (a < ABASE || a >= ABASE + ASIZE) return nullptr;
  uint32_t id = g_gran[(a - ABASE) >> 4];
  return id ? &g_objs[id] : nullptr;
}

// ------------------------------------------------------------------ machine
struct Machine {
  Module *M; const DataLayout *DL;
  std::vector<std::unique_ptr<DFunc>> funcs;
  std::unordered_map<const Function *, DFunc *> fmap;
  std::unordered_map<uint64_t, DFunc *> faddr;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::vector<Thread> threads; int cur = 0;
  std::vector<Intrin> intrins; std::unordered_map<std::string, int> intrinNames;
  uint64_t steps = 0; unsigned nforks = 0;
  std::map<uint64_t, int> lockOwner;
  int forkSel = 0; std::map<unsigned, double> lower_; std::vector<const Expr *> pc; std::unordered_map<const Expr *, bool> known;
  std::unordered_map<std::string, int> nameCnt;
  std::vector<std::pair<std::string, std::string>> trace; // concrete choices
  Thread &T() { return threads[cur]; }
  void decode(DFunc *f);
  void run();
  void registerIntrins();
};
static Machine *MC;

// ------------------------------------------------------------------ solver
static z3::solver *zs;
static bool g_haveModel = false; static z3::model *g_model; static size_t g_axDone = 0;
std::vector<z3::expr> &zaxioms();
static std::vector<z3::expr> g_allAsserted;

static void flushAxioms() {
  auto &ax = zaxioms();
  for (; g_axDone < ax.size(); g_axDone++) { zs->add(ax[g_axDone]); g_allAsserted.push_back(ax[g_axDone]); g_haveModel = false; }
}
enum R { SAT, UNSAT, UNKNOWN };
static volatile sig_atomic_t g_inSolver = 0;
// wall-clock cap per query, on top of the resource limit
static unsigned g_qsec = 15;
static void onAlarm(int) { if (g_inSolver) { Z3_interrupt(zctx()); alarm(1); } }
struct QTimer { QTimer(unsigned k = 1) { double left = g_deadline - now(); unsigned t = g_qsec * k; if (left < t) t = left < 1 ? 1 : (unsigned)left; g_inSolver = 1; signal(SIGALRM, onAlarm); alarm(t); } ~QTimer() { g_inSolver = 0; alarm(0); } };
static R zcheck(z3::solver &s, const z3::expr &x, z3::model **mo) {
  S->queries++;
  uint64_t t0 = usNow();
  R r;
  s.push();
  try {
    s.add(x); QTimer qt;
    z3::check_result cr = s.check();
    r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
    if (r == SAT && mo) *mo = new z3::model(s.get_model());
  } catch (z3::exception &ex) { r = UNKNOWN; }
  s.pop();
  S->solverUs += usNow() - t0;
  (r == SAT ? S->sat : r == UNSAT ? S->unsat : S->unknown)++;
  return r;
}
static R solve(const Expr *cond, z3::model **mo, bool hard) {
  if (isC(cond)) return cond->cval ? (g_haveModel || !mo ? SAT : SAT) : UNSAT;
  z3::expr x(zctx());
  try { x = lower(cond); } catch (std::exception &ex) { if (g_verbose) fprintf(stderr, "lower: %s\n", ex.what()); return UNKNOWN; }
  catch (z3::exception &ex) { if (g_verbose) fprintf(stderr, "lower: %s %s\n", ex.msg(), exprStr(cond).c_str()); return UNKNOWN; }
  flushAxioms();
  R r = zcheck(*zs, x, mo);
  if (r == UNKNOWN) {
    // fresh, non-incremental attempt with polynomial normalisation
    S->queries++;
    uint64_t t0 = usNow();
    try {
      z3::params sp(zctx()); sp.set("som", true); sp.set("flat", true);
      z3::tactic t = z3::with(z3::tactic(zctx(), "simplify"), sp) & z3::tactic(zctx(), "propagate-values") & z3::tactic(zctx(), "solve-eqs") & z3::tactic(zctx(), "smt");
      z3::solver s2 = t.mk_solver();
      z3::params p(zctx()); p.set("rlimit", g_rlimit * (hard ? 5u : 1u)); s2.set(p);
      for (auto &a : g_allAsserted) s2.add(a);
      s2.add(x); QTimer qt(hard ? 2 : 1);
      auto cr = s2.check();
      r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
      if (r == SAT && mo) *mo = new z3::model(s2.get_model());
    } catch (z3::exception &) { r = UNKNOWN; }
    S->solverUs += usNow() - t0;
    (r == SAT ? S->sat : r == UNSAT ? S->unsat : S->unknown)++;
    if (r == UNKNOWN && hard) {
      try {
        z3::solver s3(zctx(), "QF_NRA");
        z3::params p(zctx()); p.set("rlimit", g_rlimit * 5u); s3.set(p);
        for (auto &a : g_allAsserted) s3.add(a);
        s3.add(x); QTimer qt(2);
        t0 = usNow();
        S->queries++;
        auto cr = s3.check();
        r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
        if (r == SAT && mo) *mo = new z3::model(s3.get_model());
      } catch (z3::exception &) { r = UNKNOWN; }
      S->solverUs += usNow() - t0;
      (r == SAT ? S->sat : r == UNSAT ? S->unsat : S->unknown)++;
    }
  }
  return r;
}
static void setModel(z3::model *m) { if (m) { g_model = m; g_haveModel = true; } }
static void addPC(const Expr *c) {
  if (isC(c)) return;
  MC->pc.push_back(c);
  MC->known[c] = true; MC->known[mkNot(c)] = false;
  try {
    z3::expr x = lower(c); flushAxioms(); zs->add(x); g_allAsserted.push_back(x);
  } catch (std::exception &) {} catch (z3::exception &) {}
}
static int evalModel(const Expr *c) { // 1 true 0 false -1 unknown
  if (!g_haveModel) return -1;
  try {
    z3::expr x = lower(c); if (g_axDone != zaxioms().size()) { flushAxioms(); return -1; }
    z3::expr v = g_model->eval(x, true);
    if (v.is_true()) return 1; if (v.is_false()) return 0;
  } catch (...) {}
  return -1;
}
static std::string modelJson(z3::model *m) {
  std::string s = "[";
  bool first = true;
  auto put = [&](const std::string &n, const std::string &v) { if (!first) s += ","; first = false; s += "[\"" + jesc(n) + "\",\"" + jesc(v) + "\"]"; };
  for (auto &y : g_syms) {
    std::string v = "0";
    if (m) try {
      z3::expr x = m->eval(lower(y.e), true);
      if (y.ty == T_BV) {
        if (y.w == 1) v = x.is_true() ? "1" : "0";
        else { uint64_t u = 0; if (x.is_numeral_u64(u)) v = std::to_string(sxt(u, y.w)); }
      } else if (ecfg.fp) {
        z3::expr bv = z3::expr(zctx(), Z3_mk_fpa_to_ieee_bv(zctx(), x)).simplify(); uint64_t u = 0; if (bv.is_numeral_u64(u)) v = (y.ty == T_F64 ? "d:" : "f:") + std::to_string(u);
      } else {
        if (x.is_algebraic()) x = x.is_algebraic() ? z3::expr(zctx(), Z3_get_algebraic_number_lower(zctx(), x, 20)) : x;
        v = "q:" + x.get_decimal_string(20);
        z3::expr nu = x.numerator(), de = x.denominator();
        v = "q:" + nu.get_decimal_string(0) + "/" + de.get_decimal_string(0);
      }
    } catch (...) {}
    put(y.name, v);
  }
  for (auto &t : MC->trace) put(t.first, t.second);
  return s + "]";
}
static std::string whereAmI() {
  std::string s; auto &T = MC->T();
  int n = 0;
  for (int i = (int)T.fr.size() - 1; i >= 0 && n < 14; i--, n++) {
    Frame &f = T.fr[i]; uint32_t p = f.pc; if (p) p--; 
    std::string loc = f.f->name;
    if (f.f->decoded && p < f.f->code.size() && f.f->code[p].I) if (const DILocation *d = f.f->code[p].I->getDebugLoc()) {
      std::string fn = d->getFilename().str(); size_t k = fn.rfind('/'); if (k != std::string::npos) fn = fn.substr(k + 1);
      loc += "@" + fn + ":" + std::to_string(d->getLine());
      for (const DILocation *ia = d->getInlinedAt(); ia; ia = ia->getInlinedAt()) { std::string f2 = ia->getFilename().str(); k = f2.rfind('/'); if (k != std::string::npos) f2 = f2.substr(k + 1); loc += "<-" + f2 + ":" + std::to_string(ia->getLine()); }
    }
    s += (s.empty() ? "" : " < ") + loc;
  }
  return s;
}
static bool g_ownToken = true;
[[noreturn]] static void quitProcess() {
  S->insts += MC->steps;
  if (g_ownToken) sem_post(&S->slots);
  S->live--;
  _exit(0);
}
[[noreturn]] static void endPath(const char *status) {
  S->pathsDone++;
  (void)status;
  quitProcess();
}
static unsigned labelHash(const std::string &l) { unsigned h = 5381; for (char ch : l) h = h * 33 + (unsigned char)ch; return h & 4095; }
[[noreturn]] static void pathUnsup(const std::string &why) {
  S->unsup++;
  if (S->unsup <= 50) emit("{\"t\":\"unsup\",\"why\":\"" + jesc(why) + "\",\"at\":\"" + jesc(whereAmI()) + "\"}");
  endPath("unsup");
}
static void violation(const std::string &label, const std::string &kind, const std::string &detail, z3::model *m) {
  S->failed++;
  int n = S->labelViol[labelHash(label)]++;
  if (n < g_maxViolPerLabel)
    emit("{\"t\":\"viol\",\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"detail\":\"" + jesc(detail) + "\",\"at\":\"" + jesc(whereAmI()) + "\",\"model\":" + modelJson(m) + "}");
}
[[noreturn]] static void pathError(const std::string &kind, const std::string &detail) {
  // a run-time fault on this path: need a model of the current path condition
  if (g_crashIsViolation) {
    z3::model *m = nullptr;
    R r = SAT;
    if (!g_haveModel) { S->queries++; auto cr = zs->check(); r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN; if (r == SAT) m = new z3::model(zs->get_model()); (r == SAT ? S->sat : r == UNSAT ? S->unsat : S->unknown)++; }
    else m = g_model;
    if (r == UNSAT) { S->pathsPruned++; endPath("infeasible"); }
    S->crashViol++; S->obligations++;
    violation("no-fault:" + kind, kind, detail, m);
  }
  S->pathsErr++;
  endPath("error");
}

// returns the truth value this process follows
static void doFork(bool &child) {
  if (S->stop) { endPath("stop"); }
  if (now() > g_deadline) { S->timeouts++; S->stop = 1; endPath("timeout"); }
  MC->nforks++; S->forks++;
  if (MC->nforks > g_maxForks) { emit("{\"t\":\"bound\",\"why\":\"fork depth\",\"at\":\"" + jesc(whereAmI()) + "\"}"); S->undecided++; endPath("forkbound"); }
  bool par = sem_trywait(&S->slots) == 0;
  S->live++; S->paths++;
  pid_t p = fork();
  if (p < 0) { perror("fork"); S->live--; if (par) sem_post(&S->slots); S->undecided++; S->unsup++; emit("{\"t\":\"unsup\",\"why\":\"fork failed\"}"); child = false; return; }
  if (p == 0) { child = true; g_ownToken = par; MC->steps = 0; return; }
  child = false;
  if (!par) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { S->live--; S->unsup++; emit("{\"t\":\"unsup\",\"why\":\"worker died\"}"); } }
}
static z3::expr canonical(const Expr *e) { z3::params p(zctx()); p.set("som", true); p.set("flat", true); p.set("hoist_mul", false); p.set("som_blowup", 5000u); return sortSum(lowerNorm(e).simplify(p)); }
// comparisons of a term that has a stated lower bound with a constant
static int byBound(const Expr *c) {
  if (MC->lower_.empty() || (c->k != K_FLT && c->k != K_FLE && c->k != K_FEQ)) return -1;
  const Expr *x = c->a[0], *y = c->a[1]; bool cx = isC(x), cy = isC(y); if (cx == cy) return -1;
  try { auto it = MC->lower_.find(canonical(cx ? y : x).id()); if (it == MC->lower_.end()) return -1; double k = asFP(cx ? x : y); if (it->second <= k) return -1; return c->k == K_FEQ ? 0 : cx; } catch (...) { return -1; }
}
static bool branchOn(const Expr *c) {
  if (isC(c)) return c->cval;
  if (isUndef(c)) pathError("uninit", "branch on uninitialised value");
  auto it = MC->known.find(c);
  if (it != MC->known.end()) return it->second;
  { int b = byBound(c); if (b >= 0) { MC->known[c] = b; MC->known[mkNot(c)] = !b; return b; } if (c->k == K_XOR && isC(c->a[1]) && (b = byBound(c->a[0])) >= 0) { MC->known[c] = !b; return !b; } }
  const Expr *nc = mkNot(c);
  int ev = evalModel(c);
  z3::model *mt = nullptr, *mf = nullptr;
  R rt, rf;
  if (ev == 1) rt = SAT; else rt = solve(c, &mt, false);
  if (ev == 0) rf = SAT; else if (ev == -1 && rt == UNSAT) rf = SAT; else rf = solve(nc, &mf, false);
  if (rt == UNSAT && rf == UNSAT) { S->pathsPruned++; endPath("infeasible"); }
  if (rt == UNSAT) { MC->known[c] = false; MC->known[nc] = true; if (mf) setModel(mf); if (!g_haveModel) {} return false; }
  if (rf == UNSAT) { MC->known[c] = true; MC->known[nc] = false; if (mt) setModel(mt); return true; }
  // both sides possible
  bool child; doFork(child);
  bool side = ev == 0 ? child : !child; // the parent keeps the side its model already satisfies
  if (ev == -1) { g_haveModel = false; }
  if (side) { if (mt) setModel(mt); else if (ev != 1) g_haveModel = false; addPC(c); }
  else { if (mf) setModel(mf); else if (ev != 0) g_haveModel = false; addPC(nc); }
  return side;
}
static uint64_t concretize(const Expr *e, const char *what) {
  if (isC(e)) return e->cval;
  if (isUndef(e)) pathError("uninit", std::string("use of uninitialised value as ") + what);
  for (int n = 0;; n++) {
    if (n > 300) { emit("{\"t\":\"bound\",\"why\":\"too many values for " + std::string(what) + "\",\"at\":\"" + jesc(whereAmI()) + "\"}"); S->undecided++; endPath("concretize"); }
    if (!g_haveModel) {
      S->queries++; flushAxioms();
      auto cr = zs->check();
      if (cr == z3::unsat) { S->pathsPruned++; endPath("infeasible"); }
      if (cr == z3::unknown) pathUnsup("concretize: solver unknown");
      setModel(new z3::model(zs->get_model()));
    }
    z3::expr v = g_model->eval(lower(e), true);
    uint64_t u = 0;
    if (v.is_bool()) u = v.is_true();
    else if (!v.is_numeral_u64(u)) { g_haveModel = false; if (n > 3) pathUnsup("concretize: no value"); continue; }
    if (branchOn(mkCmp(K_EQ, e, mkConst(u, e->w)))) return u;
  }
}

// ------------------------------------------------------------------ loads and stores
static const Expr *asBV(const Expr *e) { return e->ty == T_BV ? e : mkCast(K_F2I, e, T_BV, e->ty == T_F64 ? 64 : 32); }
static void setSym(uint64_t a, const Expr *e, unsigned n) {
  g_sym[a] = {e, n};
  uint8_t *m = g_meta + (a - ABASE); m[0] = 2; for (unsigned i = 1; i < n; i++) m[i] = 3;
}
static void rawStoreExpr(uint64_t a, const Expr *e, unsigned n);
static void splitAt(uint64_t a) {
  uint8_t *m = g_meta + (a - ABASE);
  if (*m != 3) return;
  uint64_t s = a; while (g_meta[s - ABASE] == 3) s--;
  SymEnt en = g_sym[s];
  const Expr *b = asBV(en.e); unsigned lo = a - s;
  if (b->w < en.n * 8) b = mkZext(b, en.n * 8);
  rawStoreExpr(s, mkExtract(b, 0, lo * 8), lo);
  rawStoreExpr(a, mkExtract(b, lo * 8, (en.n - lo) * 8), en.n - lo);
}
static void rawStoreExpr(uint64_t a, const Expr *e, unsigned n) {
  uint8_t *m = g_meta + (a - ABASE);
  if (isC(e)) { memcpy((void *)a, &e->cval, n); memset(m, 1, n); return; }
  if (isUndef(e)) { memset(m, 0, n); return; }
  if (e->ty == T_BV) {
    if (e->w < n * 8) e = mkZext(e, n * 8);
    if (e->k == K_CONCAT && e->a[1]->w % 8 == 0) { unsigned lo = e->a[1]->w / 8; rawStoreExpr(a, e->a[1], lo); rawStoreExpr(a + lo, e->a[0], n - lo); return; }
    if (e->k == K_ZEXT && e->a[0]->w % 8 == 0) { unsigned lo = e->a[0]->w / 8; rawStoreExpr(a, e->a[0], lo); memset((void *)(a + lo), 0, n - lo); memset(m + lo, 1, n - lo); return; }
    if (e->k == K_F2I) e = e->a[0];
  }
  setSym(a, e, n);
}
static const Expr *loadExpr(uint64_t a, unsigned n) { // BV or FP expr of n bytes
  uint8_t *m = g_meta + (a - ABASE);
  if (m[0] == 2) { auto &en = g_sym[a]; if (en.n == n) return en.e; }
  const Expr *r = nullptr;
  for (unsigned i = 0; i < n;) {
    const Expr *p; unsigned len;
    if (m[i] == 0) { len = 1; while (i + len < n && m[i + len] == 0) len++; p = mkUndef(T_BV, len * 8); }
    else if (m[i] == 1) { len = 1; while (i + len < n && m[i + len] == 1) len++; uint64_t v = 0; memcpy(&v, (void *)(a + i), len); p = mkConst(v, len * 8); }
    else {
      uint64_t s = a + i; while (g_meta[s - ABASE] == 3) s--;
      SymEnt en = g_sym[s]; unsigned off = a + i - s;
      len = std::min(en.n - off, n - i);
      const Expr *b = asBV(en.e); if (b->w < en.n * 8) b = mkZext(b, en.n * 8);
      p = mkExtract(b, off * 8, len * 8);
    }
    r = r ? mkConcat(p, r) : p;
    i += len;
  }
  return r;
}
static const Expr *coerce(const Expr *e, ScalarTy t) {
  if (t.ty == T_BV) { e = asBV(e); if (e->w > t.w) e = mkExtract(e, 0, t.w); else if (e->w < t.w) e = mkZext(e, t.w); return e; }
  if (e->ty == t.ty) return e;
  e = asBV(e);
  // a float assembled from partly undefined bytes is undefined
  if (e->k == K_CONCAT) { std::vector<const Expr *> st{e}; while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (isUndef(x)) return mkUndef(t.ty, t.w); if (x->k == K_CONCAT) { st.push_back(x->a[0]); st.push_back(x->a[1]); } } }
  return mkCast(K_I2F, e, t.ty, t.w);
}
static V toV(const Expr *e) { if (isC(e)) return {e->cval, nullptr}; return {0, e}; }
static const Expr *ex(const V &v, Ty ty, unsigned w) {
  if (v.e) return v.e;
  if (ty == T_BV) return mkConst(v.c, w);
  if (ty == T_F64) { double d; memcpy(&d, &v.c, 8); return mkF64(d); }
  float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return mkF32(f);
}
[[noreturn]] static void memFault(uint64_t a, uint64_t n, bool wr) {
  Obj *o = objAt(a);
  char b[160];
  if (a < 4096) { snprintf(b, 160, "%s of %lu bytes at null+%lu", wr ? "write" : "read", n, a); pathError("null", b); }
  if (o && o->state == 2) { snprintf(b, 160, "%s of %lu bytes in freed block of %lu bytes", wr ? "write" : "read", n, o->size); pathError("uaf", b); }
  Obj *p = o; uint64_t off = 0;
  if (!p) for (uint64_t k = 1; k < 8 && !p; k++) p = objAt(a - 16 * k);
  if (p) off = a - p->base;
  snprintf(b, 160, "%s of %lu bytes at offset %ld of a %lu-byte block", wr ? "write" : "read", n, (long)off, p ? p->size : 0);
  pathError("oob", b);
}
static inline void chk(uint64_t a, uint64_t n, bool wr) {
  Obj *o = objAt(a);
  if (!o || o->state != 1 || a + n > o->base + o->size) memFault(a, n, wr);
}
static inline V memLoad(uint64_t a, ScalarTy t) {
  chk(a, t.bytes, false);
  uint8_t *m = g_meta + (a - ABASE);
  uint64_t v = 0;
  switch (t.bytes) {
  case 8: { uint64_t mm; memcpy(&mm, m, 8); if (mm == 0x0101010101010101ULL) { memcpy(&v, (void *)a, 8); return {v, nullptr}; } break; }
  case 4: { uint32_t mm; memcpy(&mm, m, 4); if (mm == 0x01010101U) { uint32_t x; memcpy(&x, (void *)a, 4); return {t.w < 32 ? x & maskw(t.w) : x, nullptr}; } break; }
  case 1: if (*m == 1) return {(*(uint8_t *)a) & maskw(t.w), nullptr}; break;
  case 2: if (m[0] == 1 && m[1] == 1) { uint16_t x; memcpy(&x, (void *)a, 2); return {x & maskw(t.w), nullptr}; } break;
  default: break;
  }
  return toV(coerce(loadExpr(a, t.bytes), t));
}
static inline void memStore(uint64_t a, const V &v, ScalarTy t) {
  chk(a, t.bytes, true);
  uint8_t *m = g_meta + (a - ABASE);
  if (m[0] == 3) splitAt(a);
  if (m[t.bytes] == 3) splitAt(a + t.bytes);
  if (!v.e) { memcpy((void *)a, &v.c, t.bytes); memset(m, 1, t.bytes); }
  else rawStoreExpr(a, v.e, t.bytes);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  chk(s, n, false); chk(d, n, true);
  splitAt(s); splitAt(d);
  if (g_meta[s + n - ABASE] == 3) splitAt(s + n);
  if (g_meta[d + n - ABASE] == 3) splitAt(d + n);
  uint8_t *ms = g_meta + (s - ABASE);
  std::vector<std::pair<uint64_t, SymEnt>> mv;
  for (uint64_t i = 0; i < n;) {
    uint8_t *q = ms + i; // skip quickly over concrete runs
    if (n - i >= 8) { uint64_t mm; memcpy(&mm, q, 8); if (mm == 0x0101010101010101ULL || mm == 0) { i += 8; continue; } }
    if (*q == 2) { auto en = g_sym[s + i]; mv.push_back({i, en}); i += en.n; } else i++;
  }
  memmove((void *)d, (void *)s, n);
  memmove(g_meta + (d - ABASE), ms, n);
  for (auto &p : mv) g_sym[d + p.first] = p.second;
}
static void memFill(uint64_t d, const V &v, uint64_t n) {
  if (!n) return;
  chk(d, n, true); splitAt(d); if (g_meta[d + n - ABASE] == 3) splitAt(d + n);
  if (!v.e) { memset((void *)d, (int)v.c, n); memset(g_meta + (d - ABASE), 1, n); return; }
  for (uint64_t i = 0; i < n; i++) rawStoreExpr(d + i, v.e, 1);
}
static std::string cstr(uint64_t a) {
  std::string s;
  for (;; a++) { chk(a, 1, false); if (g_meta[a - ABASE] != 1) pathUnsup("symbolic C string"); char ch = *(char *)a; if (!ch) return s; s += ch; if (s.size() > 100000) pathUnsup("long string"); }
}

// ------------------------------------------------------------------ types
static ScalarTy scalarOf(Type *t) {
  if (t->isDoubleTy()) return {T_F64, 64, 8};
  if (t->isFloatTy()) return {T_F32, 32, 4};
  if (t->isPointerTy()) return {T_BV, 64, 8};
  if (auto *it = dyn_cast<IntegerType>(t)) { unsigned w = it->getBitWidth(); if (w <= 64) return {T_BV, (uint8_t)w, (uint8_t)((w + 7) / 8)}; return {T_BV, 0, 0}; }
  return {T_BV, 0, 0};
}
static bool flatten(Type *t, uint64_t off, std::vector<Leaf> &out) {
  const DataLayout &DL = *MC->DL;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false;
    return true;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL.getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) if (!flatten(at->getElementType(), off + i * es, out)) return false;
    return true;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    Type *et = vt->getElementType();
    if (et->isIntegerTy() && et->getIntegerBitWidth() % 8) { // e.g. <2 x i1>: registers only
      for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({scalarOf(et), off + i});
      return true;
    }
    uint64_t es = DL.getTypeStoreSize(et);
    for (unsigned i = 0; i < vt->getNumElements(); i++) if (!flatten(et, off + i * es, out)) return false;
    return true;
  }
  if (t->isVoidTy()) return true;
  ScalarTy s = scalarOf(t);
  out.push_back({s, off});
  return s.w != 0;
}
static unsigned nleaves(Type *t) { std::vector<Leaf> v; flatten(t, 0, v); return v.size(); }

// ------------------------------------------------------------------ constants
static uint64_t globalAddr(const GlobalValue *g);
static void constFlat(const Constant *c, std::vector<V> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) { std::vector<Leaf> ls; flatten(t, 0, ls); for (auto &l : ls) out.push_back({0, mkUndef(l.t.ty, l.t.w ? l.t.w : 64)}); return; }
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back({0, nullptr}); return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back({ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().extractBitsAsZExtValue(64, 0), nullptr}); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy() || t->isFloatTy()) out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr});
    else out.push_back({0, nullptr});
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constFlat(ca->getOperand(i), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constFlat(cd->getElementAsConstant(i), out); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back({globalAddr(gv), nullptr}); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto one = [&](unsigned i) { std::vector<V> v; constFlat(ce->getOperand(i), v); return v[0].c; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*MC->DL, off)) { fprintf(stderr, "bad const gep\n"); exit(3); }
      out.push_back({one(0) + (uint64_t)off.getSExtValue(), nullptr}); return;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
      out.push_back({t->isIntegerTy() ? one(0) & maskw(t->getIntegerBitWidth()) : one(0), nullptr}); return;
    case Instruction::Sub: out.push_back({one(0) - one(1), nullptr}); return;
    case Instruction::Add: out.push_back({one(0) + one(1), nullptr}); return;
    case Instruction::ICmp: { uint64_t a = one(0), b = one(1); auto p = (CmpInst::Predicate)ce->getPredicate(); out.push_back({p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : a > b, nullptr}); return; }
    default: fprintf(stderr, "const expr %s\n", ce->getOpcodeName()); exit(3);
    }
  }
  fprintf(stderr, "unknown constant\n"); exit(3);
}
static uint64_t globalAddr(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) { std::vector<V> v; constFlat(al->getAliasee(), v); return v[0].c; }
  auto it = MC->gaddr.find(g);
  if (it != MC->gaddr.end()) return it->second;
  fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(3);
}
static void initGlobal(uint64_t a, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) { uint64_t n = MC->DL->getTypeAllocSize(t); memset((void *)a, 0, n); return; }
  if (c->isNullValue()) { uint64_t n = MC->DL->getTypeAllocSize(t); memset((void *)a, 0, n); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = MC->DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = MC->DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(a + i * es, c->getAggregateElement(i)); return; }
  std::vector<V> v; constFlat(c, v);
  std::vector<Leaf> ls; 
  if (!flatten(t, 0, ls)) { uint64_t n = MC->DL->getTypeAllocSize(t); memset((void *)a, 0, n); return; }
  for (size_t i = 0; i < ls.size(); i++) memcpy((void *)(a + ls[i].off), &v[i].c, ls[i].t.bytes);
}

static void raceCheck(uint64_t a, unsigned n, bool wr);
#include "decode.inc"
#include "interp.inc"
#include "intrin.inc"

int main(int argc, char **argv) {
  std::string bc, out = "/dev/stdout"; double timeout = 600; int jobs = 8; std::string entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nx();
    else if (a == "-t") timeout = atof(nx().c_str());
    else if (a == "-j") jobs = atoi(nx().c_str());
    else if (a == "-e") entry = nx();
    else if (a == "-v") g_verbose++;
    else if (a == "--fp") ecfg.fp = true;
    else if (a == "--trunc") ecfg.truncUF = true;
    else if (a == "--steps") g_maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--forks") g_maxForks = atoi(nx().c_str());
    else if (a == "--rlimit") g_rlimit = atoi(nx().c_str());
    else bc = a;
  }
  g_deadline = now() + timeout;
  setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGTERM, SIG_IGN);
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("sx", errs()); return 3; }
  memInit();
  Machine m; MC = &m; m.M = mod.get(); m.DL = &mod->getDataLayout();
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&S->slots, 1, jobs - 1);
  g_out = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
  wordId({});
  m.registerIntrins();
  for (auto &F : *mod) {
    auto d = std::make_unique<DFunc>(); d->F = &F; d->name = F.getName().str(); d->idx = (int)m.funcs.size(); d->hasBody = !F.isDeclaration();
    d->addr = memAlloc(16, OK_GLOBAL); g_objs.back().size = 0;
    auto it = m.intrinNames.find(d->name); if (it != m.intrinNames.end()) d->intrin = it->second;
    m.fmap[&F] = d.get(); m.faddr[d->addr] = d.get(); m.gaddr[&F] = d->addr;
    m.funcs.push_back(std::move(d));
  }
  for (auto &G : mod->globals()) { uint64_t n = m.DL->getTypeAllocSize(G.getValueType()); if (n < 512 && G.isDeclaration()) n = 512; m.gaddr[&G] = memAlloc(n, OK_GLOBAL); memset(g_meta + (m.gaddr[&G] - ABASE), 1, n); }
  for (auto &G : mod->globals()) if (G.hasInitializer()) initGlobal(m.gaddr[&G], G.getInitializer());
  for (auto &G : mod->globals()) if (G.getName() == "__libc_single_threaded") *(uint8_t *)m.gaddr[&G] = 1;

  zs = new z3::solver(zctx());
  { z3::params p(zctx()); p.set("rlimit", g_rlimit); zs->set(p); }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  // root forks the first worker and waits for everything
  S->live = 1; S->paths = 1;
  double t0 = now();
  pid_t root = fork();
  if (root == 0) {
    signal(SIGTERM, SIG_DFL);
    m.threads.resize(1); m.threads.reserve(64); Thread &T = m.threads[0];
    T.stk = T.sp = (V *)mmapAt(0, 512ULL << 20);
    Function *E = mod->getFunction(entry);
    if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); _exit(3); }
    // global constructors in priority order, then the entry
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (auto *gc = mod->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto *fn = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    try {
      for (auto &c : ctors) { pushCall(m.fmap[c.second], nullptr, 0, -1, 0, -1); m.run(); }
      pushCall(m.fmap[E], nullptr, 0, -1, 0, -1); m.run();
    } catch (z3::exception &e) { pathUnsup(std::string("z3: ") + e.msg()); }
    catch (std::exception &e) { pathUnsup(std::string("engine: ") + e.what()); }
    endPath("done");
  }
  int st; int bad = 0;
  for (;;) {
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0 && errno == ECHILD) break;
    if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { bad++; S->live--; emit("{\"t\":\"unsup\",\"why\":\"worker died\"}"); S->unsup++; } continue; }
    if (now() > g_deadline + 10) { S->timeouts++; S->stop = 1; kill(0, SIGTERM); }
    usleep(2000);
  }
  // functions executed
  std::string fns; int nf = 0;
  for (auto &f : m.funcs) if (f->hasBody && S->fnHit[f->idx & 65535]) {
    const DISubprogram *sp = f->F->getSubprogram();
    std::string file = sp && sp->getFile() ? (sp->getFile()->getFilename().str()) : "";
    if (sp && sp->getFile() && !file.empty() && file[0] != '/') file = sp->getFile()->getDirectory().str() + "/" + file;
    if (nf++) fns += ",";
    fns += "[\"" + jesc(f->name) + "\",\"" + jesc(file) + "\"]";
  }
  char b[2000];
  snprintf(b, sizeof b, "{\"t\":\"sum\",\"paths\":%ld,\"done\":%ld,\"err\":%ld,\"pruned\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"obligations\":%ld,\"proved\":%ld,\"trivial\":%ld,\"failed\":%ld,\"undecided\":%ld,\"insts\":%ld,\"forks\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"timeouts\":%ld,\"unsup\":%ld,\"functions\":[",
           S->paths.load(), S->pathsDone.load(), S->pathsErr.load(), S->pathsPruned.load(), S->queries.load(), S->sat.load(), S->unsat.load(), S->unknown.load(), S->obligations.load(), S->proved.load(), S->trivially.load(), S->failed.load(), S->undecided.load(), S->insts.load(), S->forks.load(), S->solverUs.load() / 1e6, now() - t0, S->timeouts.load(), S->unsup.load());
  emit(std::string(b) + fns + "]}");
  return 0;
}
