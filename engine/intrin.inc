// Native implementations of run-time functions and of the harness interface
static std::string uniq(const std::string &n) { int k = MC->nameCnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void assumeE(const Expr *c) {
  if (isC(c)) { if (!c->cval) { S->pathsPruned++; endPath("assume"); } return; }
  if (isUndef(c)) pathError("uninit", "assumption over an uninitialised value");
  auto it = MC->known.find(c); if (it != MC->known.end()) { if (!it->second) { S->pathsPruned++; endPath("assume"); } return; }
  int ev = evalModel(c);
  if (ev != 1) { z3::model *m = nullptr; R r = solve(c, &m, false); if (r == UNSAT) { S->pathsPruned++; endPath("assume"); } if (m) setModel(m); else g_haveModel = false; }
  addPC(c);
}
static std::set<std::string> g_seenLabels;
static void labelSeen(const std::string &l) {
  if (g_seenLabels.insert(l).second) { if (S->labelProved[labelHash(l)]++ == 0) emit("{\"t\":\"label\",\"label\":\"" + jesc(l) + "\"}"); }
}
// polynomial identity test used to normalise terms before asking the solver
static bool polyZero(const Expr *d, double tol = 0) {
  if (isC(d)) return d->ty != T_BV && std::fabs(asFP(d)) <= tol;
  try {
    z3::params p(zctx()); p.set("som", true); p.set("flat", true); p.set("hoist_mul", false); p.set("som_blowup", 5000u);
    S->queries++; uint64_t t0 = usNow();
    z3::expr z = lowerNorm(d).simplify(p); S->solverUs += usNow() - t0;
    if (z.is_numeral() && (z.get_decimal_string(3) == "0" || (tol > 0 && std::fabs(Z3_get_numeral_double(zctx(), z)) <= tol))) { S->unsat++; return true; }
  } catch (...) {}
  return false;
}
static void proveE(const Expr *c, const std::string &label, const std::string &detail, const Expr *eqA = nullptr, const Expr *eqB = nullptr) {
  labelSeen(label);
  S->obligations++;
  if (isUndef(c)) { S->failed++; violation(label, "uninit", "the value checked is uninitialised " + detail, g_haveModel ? g_model : nullptr); return; }
  if (isC(c) && c->cval) { S->proved++; S->trivially++; return; }
  auto it = MC->known.find(c); if (it != MC->known.end() && it->second) { S->proved++; return; }
  z3::model *m = nullptr; R r;
  if (isC(c)) {
    if (!g_haveModel) { S->queries++; flushAxioms(); auto cr = zs->check(); r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN; (r == SAT ? S->sat : r == UNSAT ? S->unsat : S->unknown)++; if (r == SAT) { m = new z3::model(zs->get_model()); setModel(m); } }
    else { r = SAT; m = g_model; }
  } else {
    if (eqA && !ecfg.fp && eqA->ty != T_BV) { if (polyZero(mkF(K_FSUB, eqA, eqB))) { S->proved++; return; } }
    r = solve(mkNot(c), &m, true);
  }
  if (r == UNSAT) { S->proved++; if (isC(c)) { S->pathsPruned++; endPath("infeasible"); } return; }
  if (r == UNKNOWN) { S->undecided++; emit("{\"t\":\"undecided\",\"label\":\"" + jesc(label) + "\",\"expr\":\"" + jesc(exprStr(c, 5)) + "\",\"at\":\"" + jesc(whereAmI()) + "\"}"); if (isC(c)) { violation(label, "assert", detail, nullptr); endPath("failed"); } return; }
  violation(label, "assert", detail + " " + exprStr(c, 8), m);
  if (isC(c)) endPath("failed");
  assumeE(c);
}
static void excPath(const std::string &w) { pathError("exception", w); }

// ---- rigid motion words
static bool loadMat(uint64_t a, int n, const Expr **E) { for (int i = 0; i < n; i++) { chk(a + 8 * i, 8, false); V v = memLoad(a + 8 * i, {T_F64, 64, 8}); E[i] = ex(v, T_F64, 64); } return true; }
static void stF(uint64_t a, const Expr *e) { V v = toV(e); memStore(a, v, {T_F64, 64, 8}); }
static bool isZero(const Expr *e) { return isC(e) && asFP(e) == 0; }
static bool isOne(const Expr *e) { return isC(e) && asFP(e) == 1; }
// E: n x n row major (n = 3 or 4)
static bool recognise(const Expr **E, int n, uint32_t &w) {
  auto at = [&](int i, int j) { return E[i * n + j]; };
  bool allc = true, ident = true;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (!isC(at(i, j))) allc = false; else if (asFP(at(i, j)) != (i == j)) ident = false; }
  if (n == 4) for (int j = 0; j < 4; j++) if (!isC(at(3, j)) || asFP(at(3, j)) != (j == 3)) return false;
  if (allc) {
    if (!ident) return false;
    if (n == 4) for (int i = 0; i < 3; i++) if (!isZero(at(i, 3))) return false;
    w = wordId({}); return true;
  }
  std::vector<uint32_t> cand;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    const Expr *e = at(i, j);
    if (e->k != K_POSE || e->cval % 4 == 3) return false;
    if (cand.empty()) { cand.push_back(e->aux); cand.push_back(wordInv(e->aux)); }
  }
  for (uint32_t c : cand) {
    bool ok = true;
    for (int i = 0; i < 3 && ok; i++) for (int j = 0; j < 3 && ok; j++) if (at(i, j) != mkPose(c, i, j)) ok = false;
    if (!ok) continue;
    if (n == 4) for (int i = 0; i < 3 && ok; i++) { const Expr *t = mkPose(c, i, 3); if (at(i, 3) != t && !polyZero(mkF(K_FSUB, at(i, 3), t))) ok = false; }
    if (ok) { w = c; return true; }
  }
  return false;
}
static void stWord(uint64_t d, uint32_t w, int n) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) stF(d + 8 * (i * n + j), mkPose(w, i, j));
  if (n == 4) for (int j = 0; j < 4; j++) stF(d + 8 * (12 + j), mkF64(j == 3));
}
static bool recogniseRvec(uint64_t a, uint32_t &w) {
  const Expr *E[3]; loadMat(a, 3, E);
  if (isZero(E[0]) && isZero(E[1]) && isZero(E[2])) { w = wordId({}); return true; }
  const Expr *e = E[0]; // descend to a rotation component: an average of equal vectors is that vector
  for (int d = 0; d < 12 && e->k != K_RVEC; d++) {
    if (e->k == K_FNEG || e->k == K_FADD || e->k == K_FSUB || e->k == K_FMUL || e->k == K_FDIV) e = isC(e->a[0]) ? e->a[1] : e->a[0];
    else return false;
  }
  if (e->k != K_RVEC) return false;
  for (int s = 0; s < 2; s++) {
    uint32_t c = s ? wordInv(e->aux) : e->aux; bool ok = true;
    for (int i = 0; i < 3 && ok; i++) { const Expr *t = mkRvec(c, i); ok = E[i] == t || (!isUndef(E[i]) && polyZero(mkF(K_FSUB, E[i], t))); }
    if (ok) { w = c; return true; }
  }
  return false;
}

// ---- threads
struct Acc { int tid; bool wr; std::set<uint64_t> locks; };
static std::unordered_map<uint64_t, std::vector<Acc>> g_acc;
static bool g_raceOn = false;
static void raceCheck(uint64_t a, unsigned n, bool wr) {
  Machine &m = *MC;
  if (!g_raceOn || m.cur == 0) return;
  Obj *o = objAt(a); if (!o || o->kind == OK_STACK) return;
  Thread &T = m.T();
  for (uint64_t g = a / 4; g <= (a + n - 1) / 4; g++) {
    auto &v = g_acc[g]; bool found = false;
    for (auto &x : v) {
      if (x.tid == T.id) { if (x.locks == T.locks) { x.wr |= wr; found = true; } continue; }
      if (!(x.wr || wr)) continue;
      bool common = false; for (auto l : x.locks) if (T.locks.count(l)) common = true;
      if (!common) { g_raceOn = false; pathError("race", "unsynchronised conflicting accesses by two worker tasks"); }
    }
    if (!found) v.push_back({T.id, wr, T.locks});
  }
}
static bool runnable(Thread &t) {
  if (t.done) return false;
  if (t.waitLock) return MC->lockOwner.count(t.waitLock) == 0;
  if (t.joining) { for (auto &o : MC->threads) if (o.id != t.id && !o.done) return false; return true; }
  return true;
}
static bool schedule() {
  Machine &m = *MC;
  std::vector<int> r; for (auto &t : m.threads) if (runnable(t)) r.push_back(t.id);
  if (r.empty()) return false;
  int pick = r[0];
  if (r.size() > 1) {
    const Expr *s = mkSym(uniq("sched"), T_BV, 32);
    for (size_t i = 0; i + 1 < r.size(); i++) { if (branchOn(mkCmp(K_EQ, s, mkConst(r[i], 32)))) { pick = r[i]; goto done; } pick = r[i + 1]; }
    assumeE(mkCmp(K_EQ, s, mkConst(pick, 32)));
  }
done:
  m.cur = pick; Thread &T = m.T();
  if (T.waitLock) { m.lockOwner[T.waitLock] = T.id; T.locks.insert(T.waitLock); T.waitLock = 0; }
  if (T.joining) { T.joining = false; g_acc.clear(); std::vector<Thread> keep; }
  return true;
}

void Machine::registerIntrins() {
  auto reg = [&](const std::string &n, Intrin f) { intrinNames[n] = intrins.size(); intrins.push_back(f); };
  auto A = [](V &v) { return addrOf(v, "address argument"); };
#define I(...) [=](Machine & m, V *a, int n, V *r) { (void)m; (void)a; (void)n; (void)r; __VA_ARGS__ }
  for (auto nm : {"malloc", "_Znwm", "_Znam"}) reg(nm, I(uint64_t k = addrOf(a[0], "allocation size"); r[0] = {memAlloc(k, OK_HEAP), nullptr};));
  for (auto nm : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) reg(nm, I(uint64_t k = addrOf(a[0], "allocation size"); r[0] = {memAlloc(k, OK_HEAP), nullptr};));
  for (auto nm : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) reg(nm, I(uint64_t k = addrOf(a[0], "allocation size"); r[0] = {memAlloc(k, OK_HEAP, addrOf(a[1], "alignment")), nullptr};));
  reg("aligned_alloc", I(uint64_t k = addrOf(a[1], "allocation size"); r[0] = {memAlloc(k, OK_HEAP, addrOf(a[0], "alignment")), nullptr};));
  reg("calloc", I(uint64_t k = addrOf(a[0], "size") * addrOf(a[1], "size"); uint64_t p = memAlloc(k, OK_HEAP); memFill(p, {0, nullptr}, k); r[0] = {p, nullptr};));
  reg("realloc", I(uint64_t k = addrOf(a[1], "size"); uint64_t p = memAlloc(k, OK_HEAP); uint64_t o = A(a[0]); if (o) { Obj *ob = objAt(o); memCopy(p, o, std::min(ob->size, k)); ob->state = 2; } r[0] = {p, nullptr};));
  for (auto nm : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"})
    reg(nm, I(uint64_t p = A(a[0]); if (!p) return; Obj *o = objAt(p); if (!o || o->base != p || o->kind != OK_HEAP) pathError("badfree", "free of a non-heap pointer"); if (o->state != 1) pathError("doublefree", "block freed twice"); o->state = 2;));
  auto mc = I(uint64_t k = addrOf(a[2], "copy length"); if (k) memCopy(A(a[0]), A(a[1]), k); r[0] = a[0];);
  for (auto nm : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "llvm.memmove.p0.p0.i32", "llvm.memcpy.inline.p0.p0.i64"}) reg(nm, mc);
  auto ms = I(uint64_t k = addrOf(a[2], "fill length"); V v = a[1]; if (v.e && v.e->w > 8) v = toV(mkExtract(v.e, 0, 8)); if (k) memFill(A(a[0]), v, k); r[0] = a[0];);
  for (auto nm : {"memset", "llvm.memset.p0.i64", "llvm.memset.p0.i32"}) reg(nm, ms);
  auto cmp = I(uint64_t k = addrOf(a[2], "length"); uint64_t x = A(a[0]), y = A(a[1]);
    for (uint64_t i = 0; i < k; i++) {
      V p = memLoad(x + i, {T_BV, 8, 1}), q = memLoad(y + i, {T_BV, 8, 1});
      if (!p.e && !q.e) { if (p.c != q.c) { r[0] = {(uint64_t)(p.c < q.c ? 0xffffffffu : 1), nullptr}; return; } continue; }
      const Expr *P = ex(p, T_BV, 8), *Q = ex(q, T_BV, 8);
      if (branchOn(mkCmp(K_EQ, P, Q))) continue;
      r[0] = {(uint64_t)(branchOn(mkCmp(K_ULT, P, Q)) ? 0xffffffffu : 1), nullptr}; return;
    }
    r[0] = {0, nullptr};);
  reg("memcmp", cmp); reg("bcmp", cmp);
  reg("memchr", I(uint64_t k = addrOf(a[2], "length"); uint64_t x = A(a[0]); uint8_t ch = (uint8_t)addrOf(a[1], "char"); for (uint64_t i = 0; i < k; i++) { V p = memLoad(x + i, {T_BV, 8, 1}); if (addrOf(p, "char") == ch) { r[0] = {x + i, nullptr}; return; } } r[0] = {0, nullptr};));
  reg("strlen", I(r[0] = {cstr(A(a[0])).size(), nullptr};));
  reg("strcmp", I(int k = strcmp(cstr(A(a[0])).c_str(), cstr(A(a[1])).c_str()); r[0] = {(uint32_t)(k < 0 ? -1 : k > 0), nullptr};));
  reg("strncmp", I(int k = strncmp(cstr(A(a[0])).c_str(), cstr(A(a[1])).c_str(), addrOf(a[2], "n")); r[0] = {(uint32_t)(k < 0 ? -1 : k > 0), nullptr};));
  reg("__errno_location", I(static uint64_t p = 0; if (!p) { p = memAlloc(16, OK_GLOBAL); memFill(p, {0, nullptr}, 16); } r[0] = {p, nullptr};));
  for (auto nm : {"strtol", "__isoc23_strtol"}) reg(nm, I(uint64_t p = A(a[0]); std::string s = cstr(p); char *e; long v = strtol(s.c_str(), &e, (int)addrOf(a[2], "base")); if (A(a[1])) memStore(A(a[1]), {p + (e - s.c_str()), nullptr}, {T_BV, 64, 8}); r[0] = {(uint64_t)v, nullptr};));
  // floating point
  struct FnD { const char *n; double (*f)(double); Kind k; };
  static const FnD fns[] = {{"sin", ::sin, K_UF}, {"cos", ::cos, K_UF}, {"tan", ::tan, K_UF}, {"atan", ::atan, K_UF}, {"acos", ::acos, K_UF}, {"asin", ::asin, K_UF}, {"exp", ::exp, K_UF}, {"log", ::log, K_UF},
    {"sqrt", ::sqrt, K_FSQRT}, {"fabs", ::fabs, K_FABS}, {"floor", ::floor, K_FFLOOR}, {"ceil", ::ceil, K_FCEIL}, {"round", ::round, K_FROUND}, {"trunc", ::trunc, K_FTRUNC}, {"rint", ::rint, K_FRINT}, {"nearbyint", ::nearbyint, K_FRINT}};
  for (auto &fn : fns) {
    auto body = [fn](V *a, V *r, bool f32) {
      if (!a[0].e) { r[0] = {f32 ? bitsOf((float)fn.f(fOf(a[0].c))) : bitsOf(fn.f(dOf(a[0].c))), nullptr}; return; }
      Ty t = f32 ? T_F32 : T_F64; unsigned w = f32 ? 32 : 64;
      if (fn.k == K_UF) r[0] = toV(mkUF(fn.n, {a[0].e}, t, w)); else r[0] = toV(mkF(fn.k, a[0].e));
    };
    std::string n = fn.n;
    reg(n, [body](Machine &, V *a, int, V *r) { body(a, r, false); });
    reg(n + "f", [body](Machine &, V *a, int, V *r) { body(a, r, true); });
    reg("llvm." + n + ".f64", [body](Machine &, V *a, int, V *r) { body(a, r, false); });
    reg("llvm." + n + ".f32", [body](Machine &, V *a, int, V *r) { body(a, r, true); });
  }
  // rounding conversions to integers
  auto toInt = [&reg](const char *n, Kind k, bool f32, unsigned w) {
    reg(n, [=](Machine &, V *a, int, V *r) {
      if (!a[0].e) { double x = f32 ? fOf(a[0].c) : dOf(a[0].c); x = k == K_FRINT ? ::nearbyint(x) : k == K_FROUND ? ::round(x) : ::trunc(x); if (!(std::fabs(x) < (w == 32 ? 2147483648.0 : 9.2e18))) { r[0] = {w == 32 ? 0x80000000ull : 0x8000000000000000ull, nullptr}; return; } int64_t v = (int64_t)x; r[0] = {w == 32 ? (uint64_t)(uint32_t)v : (uint64_t)v, nullptr}; return; }
      r[0] = toV(mkCast(K_FPTOSI, mkF(k, a[0].e), T_BV, w)); });
  };
  toInt("llvm.x86.sse2.cvtsd2si", K_FRINT, false, 32); toInt("llvm.x86.sse2.cvtsd2si64", K_FRINT, false, 64); toInt("llvm.x86.sse.cvtss2si", K_FRINT, true, 32); toInt("llvm.x86.sse.cvtss2si64", K_FRINT, true, 64);
  toInt("llvm.x86.sse2.cvttsd2si", K_FTRUNC, false, 32); toInt("llvm.x86.sse.cvttss2si", K_FTRUNC, true, 32);
  for (auto nm : {"lrint", "llrint", "llvm.lrint.i64.f64", "llvm.llrint.i64.f64"}) toInt(nm, K_FRINT, false, 64);
  for (auto nm : {"lrintf", "llrintf", "llvm.lrint.i64.f32", "llvm.llrint.i64.f32"}) toInt(nm, K_FRINT, true, 64);
  for (auto nm : {"lround", "llround", "llvm.lround.i64.f64", "llvm.llround.i64.f64"}) toInt(nm, K_FROUND, false, 64);
  for (auto nm : {"lroundf", "llroundf", "llvm.lround.i64.f32", "llvm.llround.i64.f32"}) toInt(nm, K_FROUND, true, 64);
  struct FnD2 { const char *n; double (*f)(double, double); };
  static const FnD2 fns2[] = {{"atan2", ::atan2}, {"pow", ::pow}, {"fmod", ::fmod}, {"hypot", ::hypot}};
  for (auto &fn : fns2) {
    auto body = [fn](V *a, V *r, bool f32) {
      if (!a[0].e && !a[1].e) { r[0] = {f32 ? bitsOf((float)fn.f(fOf(a[0].c), fOf(a[1].c))) : bitsOf(fn.f(dOf(a[0].c), dOf(a[1].c))), nullptr}; return; }
      Ty t = f32 ? T_F32 : T_F64; unsigned w = f32 ? 32 : 64; const Expr *x = ex(a[0], t, w), *y = ex(a[1], t, w);
      if (std::string(fn.n) == "pow" && isC(y)) { double p = asFP(y); if (p == std::floor(p) && p >= 1 && p <= 16) { const Expr *z = x; for (int i = 1; i < (int)p; i++) z = mkF(K_FMUL, z, x); r[0] = toV(z); return; } if (p == 0.5) { r[0] = toV(mkF(K_FSQRT, x)); return; } if (p == 0) { r[0] = {f32 ? bitsOf(1.0f) : bitsOf(1.0), nullptr}; return; } }
      if (std::string(fn.n) == "hypot") { r[0] = toV(mkF(K_FSQRT, mkF(K_FADD, mkF(K_FMUL, x, x), mkF(K_FMUL, y, y)))); return; }
      r[0] = toV(mkUF(fn.n, {x, y}, t, w));
    };
    std::string n = fn.n;
    reg(n, [body](Machine &, V *a, int, V *r) { body(a, r, false); });
    reg(n + "f", [body](Machine &, V *a, int, V *r) { body(a, r, true); });
    reg("llvm." + n + ".f64", [body](Machine &, V *a, int, V *r) { body(a, r, false); });
    reg("llvm." + n + ".f32", [body](Machine &, V *a, int, V *r) { body(a, r, true); });
  }
  for (int f32 = 0; f32 < 2; f32++) for (int mx = 0; mx < 2; mx++) {
    auto body = [f32, mx](Machine &, V *a, int, V *r) {
      Ty t = f32 ? T_F32 : T_F64; unsigned w = f32 ? 32 : 64; const Expr *x = ex(a[0], t, w), *y = ex(a[1], t, w);
      r[0] = toV(mkIte(mkFCmp(K_FLT, mx ? y : x, mx ? x : y), x, y)); };
    std::string sfx = f32 ? ".f32" : ".f64";
    reg((mx ? "llvm.maxnum" : "llvm.minnum") + sfx, body); reg((mx ? "llvm.maximum" : "llvm.minimum") + sfx, body); reg(std::string(mx ? "fmax" : "fmin") + (f32 ? "f" : ""), body);
  }
  for (int f32 = 0; f32 < 2; f32++) {
    auto fma = [f32](Machine &, V *a, int, V *r) { Ty t = f32 ? T_F32 : T_F64; unsigned w = f32 ? 32 : 64; r[0] = toV(mkF(K_FADD, mkF(K_FMUL, ex(a[0], t, w), ex(a[1], t, w)), ex(a[2], t, w))); };
    reg(std::string("llvm.fmuladd.f") + (f32 ? "32" : "64"), fma); reg(std::string("llvm.fma.f") + (f32 ? "32" : "64"), fma); reg(f32 ? "fmaf" : "fma", fma);
    auto cs = [f32](Machine &, V *a, int, V *r) { Ty t = f32 ? T_F32 : T_F64; unsigned w = f32 ? 32 : 64; if (!a[0].e && !a[1].e) { r[0] = {f32 ? bitsOf(copysignf(fOf(a[0].c), fOf(a[1].c))) : bitsOf(copysign(dOf(a[0].c), dOf(a[1].c))), nullptr}; return; }
      const Expr *x = mkF(K_FABS, ex(a[0], t, w)); r[0] = toV(mkIte(mkFCmp(K_FLT, ex(a[1], t, w), t == T_F64 ? mkF64(0) : mkF32(0)), mkF(K_FNEG, x), x)); };
    reg(std::string("llvm.copysign.f") + (f32 ? "32" : "64"), cs); reg(f32 ? "copysignf" : "copysign", cs);
  }
  for (int f32 = 0; f32 < 2; f32++)
  reg(std::string("llvm.is.fpclass.f") + (f32 ? "32" : "64"), [f32](Machine &, V *a, int, V *r) {
    uint64_t mask = a[1].c; if (!a[0].e) { double d = f32 ? fOf(a[0].c) : dOf(a[0].c); unsigned cl = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : (d < 0 ? 8 : 256); r[0] = {(mask & cl) != 0, nullptr}; return; }
    if (isUndef(a[0].e)) { r[0] = {0, mkUndef(T_BV, 1)}; return; }
    if (!ecfg.fp) { if ((mask & 0x1f8) == 0) { r[0] = {0, nullptr}; return; } if ((mask & 0x1f8) == 0x1f8) { r[0] = {1, nullptr}; return; } }
    pathUnsup("is.fpclass"); });
  // integer intrinsics
  for (unsigned w : {8u, 16u, 32u, 64u}) {
    std::string s = ".i" + std::to_string(w);
    auto mm = [w](Kind k, bool mx) { return [w, k, mx](Machine &, V *a, int, V *r) { const Expr *x = ex(a[0], T_BV, w), *y = ex(a[1], T_BV, w); r[0] = toV(mkIte(mkCmp(k, x, y), mx ? y : x, mx ? x : y)); }; };
    reg("llvm.smin" + s, mm(K_SLT, false)); reg("llvm.smax" + s, mm(K_SLT, true)); reg("llvm.umin" + s, mm(K_ULT, false)); reg("llvm.umax" + s, mm(K_ULT, true));
    reg("llvm.abs" + s, [w](Machine &, V *a, int, V *r) { const Expr *x = ex(a[0], T_BV, w); r[0] = toV(mkIte(mkCmp(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x)); });
    auto conc1 = [w](std::function<uint64_t(uint64_t)> f) { return [w, f](Machine &, V *a, int, V *r) { uint64_t x = addrOf(a[0], "bit count operand"); r[0] = {f(x) & maskw(w), nullptr}; }; };
    reg("llvm.ctpop" + s, conc1([](uint64_t x) { return (uint64_t)__builtin_popcountll(x); }));
    reg("llvm.ctlz" + s, conc1([w](uint64_t x) { return x ? (uint64_t)__builtin_clzll(x) - (64 - w) : w; }));
    reg("llvm.cttz" + s, conc1([w](uint64_t x) { return x ? (uint64_t)__builtin_ctzll(x) : w; }));
    reg("llvm.bswap" + s, conc1([w](uint64_t x) { return __builtin_bswap64(x) >> (64 - w); }));
    auto fsh = [w](bool left) { return [w, left](Machine &, V *a, int, V *r) { uint64_t sh = addrOf(a[2], "shift") % w; const Expr *x = ex(a[0], T_BV, w), *y = ex(a[1], T_BV, w); if (left) sh = (w - sh) % w; if (sh == 0) { r[0] = left ? a[0] : a[1]; return; } r[0] = toV(mkBin(K_OR, mkBin(K_SHL, x, mkConst(w - sh, w)), mkBin(K_LSHR, y, mkConst(sh, w)))); }; };
    reg("llvm.fshl" + s, fsh(true)); reg("llvm.fshr" + s, fsh(false));
    auto ov = [w](int kind) { return [w, kind](Machine &, V *a, int, V *r) {
      if (!a[0].e && !a[1].e) { uint64_t x = a[0].c, y = a[1].c, z = 0; bool o = false; int64_t sx = sxt(x, w), sy = sxt(y, w); __int128 v = 0; unsigned __int128 u = 0;
        switch (kind) { case 0: u = (unsigned __int128)x + y; z = (uint64_t)u; o = (u >> w) != 0; break; case 1: z = x - y; o = x < y; break; case 2: u = (unsigned __int128)x * y; z = (uint64_t)u; o = (u >> w) != 0; break;
          case 3: v = (__int128)sx + sy; goto sg; case 4: v = (__int128)sx - sy; goto sg; case 5: v = (__int128)sx * sy; sg: z = (uint64_t)v; o = v != (__int128)sxt((uint64_t)v & maskw(w), w); break; }
        r[0] = {z & maskw(w), nullptr}; r[1] = {o, nullptr}; return; }
      const Expr *x = ex(a[0], T_BV, w), *y = ex(a[1], T_BV, w);
      switch (kind) {
        case 0: { const Expr *z = mkBin(K_ADD, x, y); r[0] = toV(z); r[1] = toV(mkCmp(K_ULT, z, x)); return; }
        case 1: r[0] = toV(mkBin(K_SUB, x, y)); r[1] = toV(mkCmp(K_ULT, x, y)); return;
        case 2: if (isC(y) && y->cval) { r[0] = toV(mkBin(K_MUL, x, y)); r[1] = toV(mkCmp(K_ULT, mkConst(maskw(w) / y->cval, w), x)); return; } pathUnsup("umul.with.overflow"); 
        default: pathUnsup("signed overflow intrinsic");
      } }; };
    const char *nm[] = {"llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow"};
    for (int k = 0; k < 6; k++) reg(nm[k] + s, ov(k));
    reg("llvm.uadd.sat" + s, [w](Machine &, V *a, int, V *r) { const Expr *x = ex(a[0], T_BV, w), *y = ex(a[1], T_BV, w), *z = mkBin(K_ADD, x, y); r[0] = toV(mkIte(mkCmp(K_ULT, z, x), mkConst(maskw(w), w), z)); });
    reg("llvm.usub.sat" + s, [w](Machine &, V *a, int, V *r) { const Expr *x = ex(a[0], T_BV, w), *y = ex(a[1], T_BV, w); r[0] = toV(mkIte(mkCmp(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y))); });
    reg("llvm.is.constant" + s, I(r[0] = {0, nullptr};));
  }
  reg("llvm.objectsize.i64.p0", I(r[0] = {~0ULL, nullptr};));
  reg("llvm.stacksave.p0", I(r[0] = {0, nullptr};)); reg("llvm.stackrestore.p0", I());
  reg("llvm.trap", I(pathError("trap", "trap");)); reg("abort", I(pathError("abort", "abort called");)); reg("exit", I(pathError("exit", "exit called");));
  reg("__assert_fail", I(pathError("assertion", cstr(A(a[0])));));
  // C++ run time
  reg("__cxa_atexit", I(r[0] = {0, nullptr};));
  reg("__cxa_guard_acquire", I(uint64_t p = A(a[0]); r[0] = {(uint64_t) !*(uint8_t *)p, nullptr};));
  reg("__cxa_guard_release", I(uint64_t p = A(a[0]); memStore(p, {1, nullptr}, {T_BV, 8, 1});));
  reg("__cxa_guard_abort", I());
  reg("__cxa_allocate_exception", I(r[0] = {memAlloc(addrOf(a[0], "size"), OK_HEAP), nullptr};)); reg("__cxa_free_exception", I());
  reg("__cxa_init_primary_exception", I(r[0] = a[0];));
  reg("__cxa_throw", I(std::string nm = "exception"; uint64_t ti = A(a[1]); for (auto &g : m.gaddr) if (g.second == ti) nm = g.first->getName().str(); pathError("exception", "uncaught exception " + nm);));
  for (auto nm : {"_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_rethrow", "__cxa_call_unexpected", "__clang_call_terminate"}) reg(nm, I(pathError("terminate", "std::terminate");));
  for (auto nm : {"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt16__throw_bad_castv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_system_errori", "_ZSt25__throw_bad_function_callv", "_ZSt21__throw_runtime_errorPKc"})
    { std::string s = nm; reg(nm, [s](Machine &, V *, int, V *) { pathError("exception", "uncaught exception from " + s.substr(6)); }); }
  for (auto nm : {"printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fwrite", "fflush", "putc", "vprintf"}) reg(nm, I(r[0] = {0, nullptr};));
  for (auto nm : {"srand", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv"}) reg(nm, I());
  for (auto nm : {"time", "clock"}) reg(nm, I(r[0] = {12345, nullptr}; if (n > 0 && !a[0].e && a[0].c) memStore(a[0].c, {12345, nullptr}, {T_BV, 64, 8});));
  // ---------------- harness interface
  reg("sx_int", I(r[0] = toV(mkSym(uniq(cstr(A(a[0]))), T_BV, 32));));
  reg("sx_i64", I(r[0] = toV(mkSym(uniq(cstr(A(a[0]))), T_BV, 64));));
  reg("sx_u8", I(r[0] = toV(mkSym(uniq(cstr(A(a[0]))), T_BV, 8));));
  reg("sx_bool", I(r[0] = toV(mkZext(mkSym(uniq(cstr(A(a[0]))), T_BV, 1), 32));));
  reg("sx_real", I(r[0] = toV(mkSym(uniq(cstr(A(a[0]))), T_F64, 64));));
  reg("sx_realf", I(r[0] = toV(mkSym(uniq(cstr(A(a[0]))), T_F32, 32));));
  auto range = [=](V *a, bool conc, V *r) {
    int lo = (int)addrOf(a[1], "lo"), hi = (int)addrOf(a[2], "hi");
    const Expr *s = mkSym(uniq(cstr(A(a[0]))), T_BV, 32);
    const Expr *c = mkAndB(mkCmp(K_SLE, mkConst((uint32_t)lo, 32), s), mkCmp(K_SLE, s, mkConst((uint32_t)hi, 32)));
    if (lo > hi) { S->pathsPruned++; endPath("assume"); }
    if (evalModel(c) != 1) g_haveModel = false;
    addPC(c);
    if (conc) { for (int v = lo; v < hi; v++) if (branchOn(mkCmp(K_EQ, s, mkConst((uint32_t)v, 32)))) { r[0] = {(uint32_t)v, nullptr}; return; } r[0] = {(uint32_t)hi, nullptr}; addPC(mkCmp(K_EQ, s, mkConst((uint32_t)hi, 32))); }
    else r[0] = toV(s);
  };
  reg("sx_range", [range](Machine &, V *a, int, V *r) { range(a, false, r); });
  reg("sx_choose", [range](Machine &, V *a, int, V *r) { range(a, true, r); });
  reg("sx_concrete", I(r[0] = {a[0].e ? concretize(a[0].e, "sx_concrete") : a[0].c, nullptr};));
  reg("sx_branch", I(r[0] = {a[0].e ? (uint64_t)branchOn(mkNot(mkCmp(K_EQ, a[0].e, mkConst(0, a[0].e->w)))) : (uint64_t)((uint32_t)a[0].c != 0), nullptr};));
  reg("sx_assume", I(const Expr *e = ex(a[0], T_BV, 32); assumeE(mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))));));
  reg("sx_prove", I(const Expr *e = ex(a[0], T_BV, 32); proveE(isUndef(e) ? e : mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))), cstr(A(a[1])), "");));
  reg("sx_prove_eq", I(const Expr *x = ex(a[0], T_F64, 64), *y = ex(a[1], T_F64, 64); const Expr *c = (isC(x) && isC(y)) ? mkConst(std::fabs(asF64(x) - asF64(y)) <= 1e-9 * (1 + std::fabs(asF64(x))), 1) : mkFCmp(K_FEQ, x, y); proveE(c, cstr(A(a[2])), exprStr(x, 6) + " == " + exprStr(y, 6), x, y);));
  reg("sx_prove_close", I(const Expr *x = ex(a[0], T_F64, 64), *y = ex(a[1], T_F64, 64), *t = ex(a[2], T_F64, 64); if (x == y) { proveE(mkConst(1, 1), cstr(A(a[3])), ""); return; } const Expr *d = mkF(K_FABS, mkF(K_FSUB, x, y)); proveE(mkFCmp(K_FLE, d, t), cstr(A(a[3])), exprStr(x, 6) + " ~ " + exprStr(y, 6), x, y);));
  reg("sx_prove_eqi", I(unsigned w = 64; proveE(mkCmp(K_EQ, ex(a[0], T_BV, w), ex(a[1], T_BV, w)), cstr(A(a[2])), exprStr(ex(a[0], T_BV, w), 6) + " == " + exprStr(ex(a[1], T_BV, w), 6));));
  reg("sx_reach", I(std::string l = cstr(A(a[0])); if (g_seenLabels.insert("reach:" + l).second && S->labelProved[labelHash("reach:" + l)]++ < 1) { if (!g_haveModel) { z3::model *m2 = nullptr; R q = zcheck(*zs, zctx().bool_val(true), &m2); if (m2) setModel(m2); else { S->labelProved[labelHash("reach:" + l)]--; if (q == UNSAT) { S->pathsPruned++; endPath("infeasible"); } return; } } z3::model *mm = g_haveModel ? g_model : nullptr; emit("{\"t\":\"reach\",\"label\":\"" + jesc(l) + "\",\"model\":" + modelJson(mm) + "}"); }));
  reg("sx_fault_is_violation", I(g_crashIsViolation = (uint32_t)a[0].c != 0;));
  reg("sx_is_sym", I(r[0] = {a[0].e && !isC(a[0].e), nullptr};));
  reg("sx_same", I(const Expr *x = ex(a[0], T_F64, 64), *y = ex(a[1], T_F64, 64); bool s = x == y; if (!s && isC(x) && isC(y)) s = std::fabs(asF64(x) - asF64(y)) <= 1e-9 * (1 + std::fabs(asF64(x))); else if (!s && !ecfg.fp && !isUndef(x) && !isUndef(y)) { static auto *memo = new std::map<std::pair<const Expr *, const Expr *>, bool>; auto key = x < y ? std::make_pair(x, y) : std::make_pair(y, x); auto it = memo->find(key); if (it != memo->end()) s = it->second; else { s = polyZero(mkF(K_FSUB, x, y), 1e-9); (*memo)[key] = s; } } r[0] = {s, nullptr};));
  reg("sx_fact_ge", I(const Expr *x = ex(a[0], T_F64, 64); if (!isC(x) && !isUndef(x) && !ecfg.fp) { static auto *keep = new std::vector<z3::expr>; z3::expr q = canonical(x); keep->push_back(q); MC->lower_[q.id()] = asF64(ex(a[1], T_F64, 64)); }));
  reg("sx_fork_selects", I(MC->forkSel = (int)a[0].c;));
  reg("sx_is_symi", I(r[0] = {a[0].e && !isC(a[0].e), nullptr};));
  reg("sx_symbolic_run", I(r[0] = {1, nullptr};));
  reg("sx_note", I(m.trace.push_back({cstr(A(a[0])), std::to_string((int)(uint32_t)a[1].c)});));
  reg("sx_log", I(if (g_verbose) fprintf(stderr, "[%d] %s\n", getpid(), cstr(A(a[0])).c_str());));
  reg("sx_logd", I(if (g_verbose) fprintf(stderr, "[%d] %s %s\n", getpid(), cstr(A(a[0])).c_str(), exprStr(ex(a[1], T_F64, 64), 12).c_str());));
  reg("sx_logi", I(if (g_verbose) fprintf(stderr, "[%d] %s %s\n", getpid(), cstr(A(a[0])).c_str(), exprStr(ex(a[1], T_BV, 32), 12).c_str());));
  reg("sx_unsupported", I(pathUnsup(cstr(A(a[0])));));
  reg("sx_fault", I(pathError(cstr(A(a[0])), cstr(A(a[1])));));
  reg("sx_end_path", I(endPath("end");));
  reg("sx_uf", I(std::string nm = cstr(A(a[0])); uint64_t p = A(a[1]); int k = (int)a[2].c; std::vector<const Expr *> v; for (int i = 0; i < k; i++) v.push_back(ex(memLoad(p + 8 * i, {T_F64, 64, 8}), T_F64, 64)); bool cc = true; for (auto *x : v) if (!isC(x)) cc = false; if (cc && k == 2 && nm == "pow") { r[0] = {bitsOf(pow(asF64(v[0]), asF64(v[1]))), nullptr}; return; } if (cc && k == 2 && nm == "atan2") { r[0] = {bitsOf(atan2(asF64(v[0]), asF64(v[1]))), nullptr}; return; } r[0] = toV(mkUF(nm.c_str(), v, T_F64, 64));));
  reg("sx_ite", I(const Expr *c = ex(a[0], T_BV, 32); const Expr *b = mkNot(mkCmp(K_EQ, c, mkConst(0, 32))); r[0] = toV(mkIte(b, ex(a[1], T_F64, 64), ex(a[2], T_F64, 64)));));
  reg("sx_lt", I(r[0] = toV(mkZext(mkFCmp(K_FLT, ex(a[0], T_F64, 64), ex(a[1], T_F64, 64)), 32));));
  // rigid motion words
  reg("sx_pose_gen", I(std::string nm = uniq(cstr(A(a[0]))); int g = newGenerator(nm); uint32_t w = wordId({g}); uint64_t pr = A(a[1]), pt = A(a[2]); for (int i = 0; i < 3; i++) { stF(pr + 8 * i, mkRvec(w, i)); stF(pt + 8 * i, mkPose(w, i, 3)); }));
  reg("sx_m_mul", I(int k = (int)a[3].c; const Expr *X[16], *Y[16]; uint64_t d = A(a[2]); loadMat(A(a[0]), k * k, X); loadMat(A(a[1]), k * k, Y); uint32_t u, v; r[0] = {0, nullptr}; if (recognise(X, k, u) && recognise(Y, k, v)) { stWord(d, wordMul(u, v), k); r[0] = {1, nullptr}; }));
  reg("sx_m_inv", I(int k = (int)a[2].c; const Expr *X[16]; uint64_t d = A(a[1]); loadMat(A(a[0]), k * k, X); uint32_t u; r[0] = {0, nullptr}; if (recognise(X, k, u)) { stWord(d, wordInv(u), k); r[0] = {1, nullptr}; }));
  reg("sx_rod_v2m", I(uint32_t w; r[0] = {0, nullptr}; if (recogniseRvec(A(a[0]), w)) { stWord(A(a[1]), w, 3); r[0] = {1, nullptr}; }));
  reg("sx_rod_m2v", I(const Expr *X[9]; loadMat(A(a[0]), 9, X); uint32_t w; r[0] = {0, nullptr}; if (recognise(X, 3, w)) { for (int i = 0; i < 3; i++) stF(A(a[1]) + 8 * i, mkRvec(w, i)); r[0] = {1, nullptr}; }));
  // threads
  reg("sx_thread", I(
    int id = m.threads.size(); if (id > 60) pathUnsup("too many tasks");
    m.threads.emplace_back(); Thread &t = m.threads.back(); t.id = id; t.stk = t.sp = (V *)mmapAt(0, 64ULL << 20);
    uint64_t fn = A(a[0]); DFunc *f = m.faddr[fn]; V arg = a[1];
    int save = m.cur; m.cur = id; pushCall(f, &arg, 1, -1, 0, -1); m.cur = save;
    g_raceOn = true; for (auto &g : m.gaddr) if (g.first->getName() == "__libc_single_threaded") *(uint8_t *)g.second = 0;));
  reg("sx_join", I(m.T().joining = true; if (!schedule()) pathError("deadlock", "tasks cannot finish");));
  reg("pthread_mutex_lock", I(uint64_t l = A(a[0]); r[0] = {0, nullptr}; if (m.threads.size() == 1) { if (m.lockOwner.count(l)) pathError("deadlock", "mutex locked twice by one thread"); m.lockOwner[l] = 0; return; }
    if (m.lockOwner.count(l) && m.lockOwner[l] == m.T().id) pathError("deadlock", "mutex locked twice by one thread");
    m.T().waitLock = l; if (!schedule()) pathError("deadlock", "no runnable thread");));
  reg("pthread_mutex_unlock", I(uint64_t l = A(a[0]); r[0] = {0, nullptr}; m.lockOwner.erase(l); m.T().locks.erase(l);));
#undef I
}
