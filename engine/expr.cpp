#include "expr.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <stdexcept>

ExprCfg ecfg;
std::vector<SymInfo> g_syms;
static uint32_t g_nextId = 1;

// ---------------------------------------------------------------- interning
static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  return h;
}
static uint64_t hashOf(const Expr &e) {
  uint64_t h = mix(e.k * 131 + e.ty, e.w);
  h = mix(h, e.cval); h = mix(h, e.aux);
  for (int i = 0; i < 3; i++) h = mix(h, (uint64_t)e.a[i]);
  if (e.more) for (auto *x : *e.more) h = mix(h, (uint64_t)x);
  return h;
}
static bool same(const Expr *a, const Expr &b) {
  if (a->hash != b.hash || a->k != b.k || a->ty != b.ty || a->w != b.w || a->cval != b.cval || a->aux != b.aux) return false;
  for (int i = 0; i < 3; i++) if (a->a[i] != b.a[i]) return false;
  if ((a->more == nullptr) != (b.more == nullptr)) return false;
  if (a->more && *a->more != *b.more) return false;
  return true;
}
static std::unordered_multimap<uint64_t, const Expr *> g_tab;
static const Expr *intern(Expr &e) {
  e.hash = hashOf(e);
  auto r = g_tab.equal_range(e.hash);
  for (auto it = r.first; it != r.second; ++it) if (same(it->second, e)) return it->second;
  Expr *p = new Expr(e);
  if (e.more) p->more = new std::vector<const Expr *>(*e.more);
  p->id = g_nextId++;
  g_tab.emplace(p->hash, p);
  return p;
}
static Expr blank(Kind k, Ty ty, unsigned w) {
  Expr e; e.k = k; e.ty = ty; e.w = (uint8_t)w; e.n = 0; e.id = 0; e.cval = 0; e.aux = 0;
  e.a[0] = e.a[1] = e.a[2] = nullptr; e.more = nullptr; e.hash = 0; return e;
}
static const Expr *node(Kind k, Ty ty, unsigned w, const Expr *a = nullptr, const Expr *b = nullptr, const Expr *c = nullptr, uint64_t cv = 0) {
  Expr e = blank(k, ty, w); e.a[0] = a; e.a[1] = b; e.a[2] = c; e.cval = cv;
  e.n = c ? 3 : b ? 2 : a ? 1 : 0;
  return intern(e);
}
const Expr *mkConst(uint64_t v, unsigned w) { return node(K_CONST, T_BV, w, 0, 0, 0, v & maskw(w)); }
const Expr *mkF64(double d) { uint64_t c; memcpy(&c, &d, 8); return node(K_CONST, T_F64, 64, 0, 0, 0, c); }
const Expr *mkF32(float f) { uint32_t c; memcpy(&c, &f, 4); return node(K_CONST, T_F32, 32, 0, 0, 0, c); }
static const Expr *mkFP(double d, Ty ty) { return ty == T_F64 ? mkF64(d) : mkF32((float)d); }
const Expr *mkSym(const std::string &name, Ty ty, unsigned w) {
  uint64_t id = g_syms.size();
  const Expr *e = node(K_SYM, ty, w, 0, 0, 0, id);
  g_syms.push_back({name, ty, w, e});
  return e;
}
const Expr *mkUndef(Ty ty, unsigned w) { return node(K_UNDEF, ty, w); }

// ---------------------------------------------------------------- bit-vectors
static const Expr *T1() { return mkConst(1, 1); }
static const Expr *F1() { return mkConst(0, 1); }

// decompose into segments (lo to hi); const segments carry value
struct Seg { const Expr *e; unsigned w; bool zero; };
static void segs(const Expr *e, std::vector<Seg> &out) {
  if (e->k == K_CONCAT) { segs(e->a[1], out); segs(e->a[0], out); return; }
  if (e->k == K_ZEXT) { segs(e->a[0], out); out.push_back({nullptr, (unsigned)(e->w - e->a[0]->w), true}); return; }
  if (isC(e) && e->cval == 0) { out.push_back({nullptr, e->w, true}); return; }
  out.push_back({e, e->w, false});
}
static const Expr *orMerge(const Expr *a, const Expr *b) {
  std::vector<Seg> A, B; segs(a, A); segs(b, B);
  if (A.size() < 2 && B.size() < 2) return nullptr;
  std::vector<const Expr *> parts;
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < A.size() && j < B.size()) {
    unsigned n = std::min(A[i].w - oi, B[j].w - oj);
    const Expr *p;
    if (A[i].zero && B[j].zero) p = mkConst(0, n);
    else if (A[i].zero) p = mkExtract(B[j].e, oj, n);
    else if (B[j].zero) p = mkExtract(A[i].e, oi, n);
    else if (isC(A[i].e) && isC(B[j].e)) p = mkConst(((A[i].e->cval >> oi) | (B[j].e->cval >> oj)), n);
    else return nullptr;
    parts.push_back(p);
    oi += n; oj += n;
    if (oi == A[i].w) { i++; oi = 0; }
    if (oj == B[j].w) { j++; oj = 0; }
  }
  const Expr *r = parts[0];
  for (size_t k = 1; k < parts.size(); k++) r = mkConcat(parts[k], r);
  return r;
}

const Expr *mkNot(const Expr *a) {
  if (isUndef(a)) return a;
  if (isC(a)) return mkConst(!a->cval, 1);
  if (a->k == K_XOR && isC(a->a[1]) && a->a[1]->cval == 1) return a->a[0];
  if (a->k == K_ULT) return mkCmp(K_ULE, a->a[1], a->a[0]);
  if (a->k == K_ULE) return mkCmp(K_ULT, a->a[1], a->a[0]);
  if (a->k == K_SLT) return mkCmp(K_SLE, a->a[1], a->a[0]);
  if (a->k == K_SLE) return mkCmp(K_SLT, a->a[1], a->a[0]);
  if (!ecfg.fp) {
    if (a->k == K_FLT) return mkFCmp(K_FLE, a->a[1], a->a[0]);
    if (a->k == K_FLE) return mkFCmp(K_FLT, a->a[1], a->a[0]);
  }
  return node(K_XOR, T_BV, 1, a, T1());
}
const Expr *mkAndB(const Expr *a, const Expr *b) { return mkBin(K_AND, a, b); }
const Expr *mkOrB(const Expr *a, const Expr *b) { return mkBin(K_OR, a, b); }

const Expr *mkBin(Kind k, const Expr *a, const Expr *b) {
  unsigned w = a->w;
  if (isUndef(a) || isUndef(b)) {
    if (k == K_AND && ((isC(a) && a->cval == 0) || (isC(b) && b->cval == 0))) return mkConst(0, w);
    if (k == K_OR && ((isC(a) && a->cval == maskw(w)) || (isC(b) && b->cval == maskw(w)))) return mkConst(maskw(w), w);
    return mkUndef(T_BV, w);
  }
  if (isC(a) && isC(b)) {
    uint64_t x = a->cval, y = b->cval; int64_t sx = sxt(x, w), sy = sxt(y, w);
    switch (k) {
    case K_ADD: return mkConst(x + y, w);
    case K_SUB: return mkConst(x - y, w);
    case K_MUL: return mkConst(x * y, w);
    case K_UDIV: if (y) return mkConst(x / y, w); break;
    case K_UREM: if (y) return mkConst(x % y, w); break;
    case K_SDIV: if (y && !(sy == -1)) return mkConst(sx / sy, w); if (sy == -1) return mkConst(-x, w); break;
    case K_SREM: if (y && sy != -1) return mkConst(sx % sy, w); if (sy == -1) return mkConst(0, w); break;
    case K_AND: return mkConst(x & y, w);
    case K_OR: return mkConst(x | y, w);
    case K_XOR: return mkConst(x ^ y, w);
    case K_SHL: return mkConst(y >= w ? 0 : x << y, w);
    case K_LSHR: return mkConst(y >= w ? 0 : x >> y, w);
    case K_ASHR: return mkConst(y >= w ? (sx < 0 ? ~0ULL : 0) : (uint64_t)(sx >> y), w);
    default: break;
    }
  }
  // commutative: constant to the right, ids ordered
  if (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  if (isC(b)) {
    uint64_t y = b->cval;
    if (y == 0) {
      if (k == K_ADD || k == K_SUB || k == K_OR || k == K_XOR || k == K_SHL || k == K_LSHR || k == K_ASHR) return a;
      if (k == K_AND || k == K_MUL) return b;
    }
    if (y == 1 && (k == K_MUL || k == K_UDIV || k == K_SDIV)) return a;
    if (k == K_AND && y == maskw(w)) return a;
    if (k == K_OR && y == maskw(w)) return b;
    if (k == K_XOR && w == 1 && y == 1) return mkNot(a);
    if (k == K_MUL && (y & (y - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(y), w));
    if (k == K_UDIV && (y & (y - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(y), w));
    if (k == K_SHL && y < w) return mkConcat(mkExtract(a, 0, w - y), mkConst(0, y));
    if (k == K_SHL && y >= w) return mkConst(0, w);
    if (k == K_LSHR && y < w) return mkZext(mkExtract(a, y, w - y), w);
    if (k == K_LSHR && y >= w) return mkConst(0, w);
    if (k == K_AND && (y & (y + 1)) == 0) { unsigned n = 64 - __builtin_clzll(y); return mkZext(mkExtract(a, 0, n), w); }
    if (k == K_AND && ((~y & maskw(w)) & ((~y & maskw(w)) + 1)) == 0) { unsigned n = __builtin_ctzll(y); return mkConcat(mkExtract(a, n, w - n), mkConst(0, n)); }
    if (k == K_SUB) return mkBin(K_ADD, a, mkConst(-y, w));
    if (k == K_ADD && a->k == K_ADD && isC(a->a[1])) return mkBin(K_ADD, a->a[0], mkConst(a->a[1]->cval + y, w));
  }
  if (a == b) {
    if (k == K_SUB || k == K_XOR) return mkConst(0, w);
    if (k == K_AND || k == K_OR) return a;
  }
  if (w == 1 && (k == K_AND || k == K_OR) && (mkNot(a) == b)) return k == K_AND ? F1() : T1();
  if (k == K_OR) { if (const Expr *m = orMerge(a, b)) return m; }
  if (k == K_ADD && !isC(b)) { // disjoint add == or
    if ((a->k == K_CONCAT || b->k == K_CONCAT) && w > 1) if (const Expr *m = orMerge(a, b)) return m;
  }
  return node(k, T_BV, w, a, b);
}

static const Expr *liftIteCmp(Kind k, const Expr *a, const Expr *b);
// trunc(x) < c for an integer constant c, over the reals (conversion in range)
static const Expr *castLt(const Expr *x, double c) {
  auto K = [&](double d) { return x->ty == T_F64 ? mkF64(d) : mkF32((float)d); };
  if (x->k == K_FROUND) { const Expr *y = x->a[0]; auto h = y->ty == T_F64 ? mkF64(c - 0.5) : mkF32((float)(c - 0.5)); return c > 0 ? mkFCmp(K_FLT, y, h) : mkFCmp(K_FLE, y, h); }
  if (x->k == K_FFLOOR && c > 0) return castLt(x->a[0], c);
  if (x->k == K_FPEXT) { return castLt(x->a[0], c); }
  return c > 0 ? mkFCmp(K_FLT, x, K(c)) : mkFCmp(K_FLE, x, K(c - 1));
}
static const Expr *cmpCast(Kind k, const Expr *a, const Expr *b) {
  if (ecfg.fp) return nullptr;
  bool sw = isC(a); const Expr *e = sw ? b : a, *c = sw ? a : b;
  if (!isC(c)) return nullptr;
  unsigned w = c->w; int64_t cv;
  const Expr *f = e; bool zx = false; if (f->k == K_SEXT) f = f->a[0]; else if (f->k == K_ZEXT) { f = f->a[0]; zx = true; }
  if (f->k == K_FPTOSI && (!zx) && (k == K_EQ || k == K_SLT || k == K_SLE)) cv = sxt(c->cval, w);
  else if (f->k == K_FPTOUI && (f == e || zx) && (k == K_EQ || k == K_ULT || k == K_ULE)) { if (c->cval >> 52) return nullptr; cv = (int64_t)c->cval; }
  else return nullptr;
  double lim = f->a[0]->ty == T_F64 ? 4e15 : 8e6;
  if (std::fabs((double)cv) > lim) return nullptr;
  const Expr *x = f->a[0]; double d = (double)cv;
  if (k == K_EQ) return mkAndB(castLt(x, d + 1), mkNot(castLt(x, d)));
  bool le = k == K_ULE || k == K_SLE;
  if (!sw) return castLt(x, le ? d + 1 : d);      // trunc(x) < / <= c
  return mkNot(castLt(x, le ? d : d + 1));        // c <= / < trunc(x)
}
const Expr *mkCmp(Kind k, const Expr *a, const Expr *b) {
  unsigned w = a->w;
  if (isUndef(a) || isUndef(b)) return mkUndef(T_BV, 1);
  if (isC(a) && isC(b)) {
    uint64_t x = a->cval, y = b->cval; int64_t sx = sxt(x, w), sy = sxt(y, w);
    switch (k) {
    case K_EQ: return mkConst(x == y, 1);
    case K_ULT: return mkConst(x < y, 1);
    case K_ULE: return mkConst(x <= y, 1);
    case K_SLT: return mkConst(sx < sy, 1);
    case K_SLE: return mkConst(sx <= sy, 1);
    default: break;
    }
  }
  if (a == b) return mkConst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  if (isC(a) || isC(b)) if (const Expr *r = cmpCast(k, a, b)) return r;
  if (k == K_EQ && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (k == K_EQ && w == 1) {
    if (isC(b)) return b->cval ? a : mkNot(a);
  }
  // zext on both sides / against constants
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w)
    return mkCmp(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, a->a[0], b->a[0]);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkCmp(k, a->a[0], b->a[0]);
  if (a->k == K_ZEXT && isC(b) && k == K_EQ) {
    if (b->cval > maskw(a->a[0]->w)) return F1();
    return mkCmp(K_EQ, a->a[0], mkConst(b->cval, a->a[0]->w));
  }
  if (a->k == K_SEXT && isC(b)) {
    unsigned iw = a->a[0]->w; int64_t y = sxt(b->cval, w);
    bool fits = sxt((uint64_t)y & maskw(iw), iw) == y;
    if (fits && (k == K_EQ || k == K_SLT || k == K_SLE)) return mkCmp(k, a->a[0], mkConst((uint64_t)y, iw));
    if (k == K_EQ) return F1();
  }
  if (b->k == K_SEXT && isC(a)) {
    unsigned iw = b->a[0]->w; int64_t y = sxt(a->cval, w);
    if (sxt((uint64_t)y & maskw(iw), iw) == y && (k == K_SLT || k == K_SLE)) return mkCmp(k, mkConst((uint64_t)y, iw), b->a[0]);
  }
  if (a->k == K_ITE && isC(b) && (isC(a->a[1]) || isC(a->a[2])))
    return mkIte(a->a[0], mkCmp(k, a->a[1], b), mkCmp(k, a->a[2], b));
  if (b->k == K_ITE && isC(a) && (isC(b->a[1]) || isC(b->a[2])))
    return mkIte(b->a[0], mkCmp(k, a, b->a[1]), mkCmp(k, a, b->a[2]));
  if (k == K_EQ && a->k == K_ADD && isC(a->a[1]) && isC(b)) return mkCmp(K_EQ, a->a[0], mkConst(b->cval - a->a[1]->cval, w));
  if (k == K_ULT && isC(b) && b->cval == 0) return F1();
  if (k == K_ULE && isC(a) && a->cval == 0) return T1();
  if (k == K_ULT && isC(b) && b->cval == 1) return mkCmp(K_EQ, a, mkConst(0, w));
  return node(k, T_BV, 1, a, b);
}

const Expr *mkIte(const Expr *c, const Expr *t, const Expr *f) {
  if (isC(c)) return c->cval ? t : f;
  if (t == f) return t;
  if (isUndef(c)) return mkUndef(t->ty, t->w);
  if (t->ty == T_BV && t->w == 1) {
    if (isC(t) && isC(f)) return t->cval ? c : mkNot(c);
    if (isUndef(t) || isUndef(f)) return node(K_ITE, T_BV, 1, c, t, f);
    if (isC(t)) return t->cval ? mkOrB(c, f) : mkAndB(mkNot(c), f);
    if (isC(f)) return f->cval ? mkOrB(mkNot(c), t) : mkAndB(c, t);
  }
  if (t->k == K_ITE && t->a[0] == c) t = t->a[1];
  if (f->k == K_ITE && f->a[0] == c) f = f->a[2];
  if (c->k == K_XOR && c->w == 1) { return mkIte(c->a[0], f, t); }
  if (t == f) return t;
  return node(K_ITE, t->ty, t->w, c, t, f);
}
const Expr *mkZext(const Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isUndef(a)) return mkUndef(T_BV, w);
  if (isC(a)) return mkConst(a->cval, w);
  if (a->k == K_ZEXT) return mkZext(a->a[0], w);
  return node(K_ZEXT, T_BV, w, a);
}
const Expr *mkSext(const Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isUndef(a)) return mkUndef(T_BV, w);
  if (isC(a)) return mkConst((uint64_t)sxt(a->cval, a->w), w);
  if (a->k == K_ZEXT) return mkZext(a->a[0], w);
  if (a->k == K_SEXT) return mkSext(a->a[0], w);
  return node(K_SEXT, T_BV, w, a);
}
const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isUndef(a)) return mkUndef(T_BV, w);
  if (isC(a)) return mkConst(a->cval >> lo, w);
  if (a->k == K_EXTRACT) return mkExtract(a->a[0], lo + (unsigned)a->cval, w);
  if (a->k == K_CONCAT) {
    unsigned lw = a->a[1]->w;
    if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
    if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
  }
  if (a->k == K_ZEXT) {
    unsigned iw = a->a[0]->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    return mkZext(mkExtract(a->a[0], lo, iw - lo), w);
  }
  if (a->k == K_SEXT && lo == 0) {
    unsigned iw = a->a[0]->w;
    if (w <= iw) return mkExtract(a->a[0], 0, w);
    return mkSext(a->a[0], w);
  }
  if (a->k == K_ITE && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  if (lo == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR))
    return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  return node(K_EXTRACT, T_BV, w, a, 0, 0, lo);
}
const Expr *mkConcat(const Expr *hi, const Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isUndef(hi) && isUndef(lo)) return mkUndef(T_BV, w);
  if (isC(hi) && isC(lo)) return mkConst((hi->cval << lo->w) | lo->cval, w);
  if (isC(hi) && hi->cval == 0) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->cval == lo->cval + lo->w)
    return mkExtract(hi->a[0], (unsigned)lo->cval, w);
  if (hi->k == K_EXTRACT && hi->a[0] == lo && hi->cval == lo->w && 0) return lo;
  return node(K_CONCAT, T_BV, w, hi, lo);
}

// ---------------------------------------------------------------- floating point
static bool isNum(const Expr *e, double d) { return isC(e) && asFP(e) == d; }
const Expr *mkF(Kind k, const Expr *a, const Expr *b) {
  Ty ty = a->ty; unsigned w = a->w;
  if (isUndef(a) || (b && isUndef(b))) return mkUndef(ty, w);
  if (isC(a) && (!b || isC(b))) {
    if (ty == T_F64) {
      double x = asF64(a), y = b ? asF64(b) : 0;
      switch (k) {
      case K_FADD: return mkF64(x + y); case K_FSUB: return mkF64(x - y);
      case K_FMUL: return mkF64(x * y); case K_FDIV: return mkF64(x / y);
      case K_FNEG: return mkF64(-x); case K_FABS: return mkF64(std::fabs(x));
      case K_FSQRT: return mkF64(std::sqrt(x));
      case K_FFLOOR: return mkF64(std::floor(x)); case K_FCEIL: return mkF64(std::ceil(x));
      case K_FTRUNC: return mkF64(std::trunc(x)); case K_FROUND: return mkF64(std::round(x));
      case K_FRINT: return mkF64(std::nearbyint(x));
      default: break;
      }
    } else {
      float x = asF32(a), y = b ? asF32(b) : 0;
      switch (k) {
      case K_FADD: return mkF32(x + y); case K_FSUB: return mkF32(x - y);
      case K_FMUL: return mkF32(x * y); case K_FDIV: return mkF32(x / y);
      case K_FNEG: return mkF32(-x); case K_FABS: return mkF32(std::fabs(x));
      case K_FSQRT: return mkF32(std::sqrt(x));
      case K_FFLOOR: return mkF32(std::floor(x)); case K_FCEIL: return mkF32(std::ceil(x));
      case K_FTRUNC: return mkF32(std::trunc(x)); case K_FROUND: return mkF32(std::round(x));
      case K_FRINT: return mkF32(std::nearbyint(x));
      default: break;
      }
    }
  }
  if (!ecfg.fp) {
    if (k == K_FADD || k == K_FMUL) if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    switch (k) {
    case K_FADD:
      if (isNum(b, 0)) return a;
      if (isC(b) && std::isinf(asFP(b))) return b;
      if (a->k == K_FNEG && b->k == K_FNEG) return mkF(K_FNEG, mkF(K_FADD, a->a[0], b->a[0]));
      if (b->k == K_FNEG) return mkF(K_FSUB, a, b->a[0]);
      if (a->k == K_FNEG) return mkF(K_FSUB, b, a->a[0]);
      { // n x + x, for small integer n
        auto co = [](const Expr *e, const Expr *&x) { double c = 1; x = e; if (e->k == K_FMUL && isC(e->a[1])) { c = asFP(e->a[1]); x = e->a[0]; } return c; };
        const Expr *x, *y; double c = co(a, x), d = co(b, y);
        if (x == y && !isC(x) && c == std::floor(c) && d == std::floor(d) && std::fabs(c) < 1e6 && std::fabs(d) < 1e6) return mkF(K_FMUL, x, mkFP(c + d, ty));
      }
      break;
    case K_FSUB:
      if (isNum(b, 0)) return a;
      if (isNum(a, 0)) return mkF(K_FNEG, b);
      if (a == b) return mkFP(0, ty);
      if (b->k == K_FNEG) return mkF(K_FADD, a, b->a[0]);
      if (isC(b) && std::isinf(asFP(b))) return mkFP(-asFP(b), ty);
      if (isC(a) && std::isinf(asFP(a))) return a;
      break;
    case K_FMUL:
      if (isNum(b, 1)) return a;
      if (isNum(b, 0)) return b;
      if (isNum(b, -1)) return mkF(K_FNEG, a);
      if (isC(b) && a->k == K_FMUL && isC(a->a[1])) { // exact products of constants only
        double p = asFP(b), q = asFP(a->a[1]), pq = p * q; int e; if (pq != 0 && std::isfinite(pq) && (std::fabs(std::frexp(p, &e)) == 0.5 || std::fabs(std::frexp(q, &e)) == 0.5)) return mkF(K_FMUL, a->a[0], mkFP(pq, ty)); }
      if (a->k == K_FNEG && b->k == K_FNEG) return mkF(K_FMUL, a->a[0], b->a[0]);
      if (a->k == K_FNEG) return mkF(K_FNEG, mkF(K_FMUL, a->a[0], b));
      if (b->k == K_FNEG) return mkF(K_FNEG, mkF(K_FMUL, a, b->a[0]));
      break;
    case K_FDIV:
      if (isNum(b, 1)) return a;
      if (isC(b) && asFP(b) != 0 && a->k == K_FMUL && a->a[1] == b) return a->a[0];
      if (isC(b) && asFP(b) != 0) { // exact when the constant is a power of two
        int ex; double m = std::frexp(asFP(b), &ex);
        if (std::fabs(m) == 0.5) return mkF(K_FMUL, a, mkFP(1.0 / asFP(b), ty));
      }
      if (isC(b) && std::isinf(asFP(b))) return mkFP(0, ty);
      if (isNum(a, 0)) return a;
      break;
    case K_FNEG: if (a->k == K_FNEG) return a->a[0];
      if (a->k == K_FSUB) return mkF(K_FSUB, a->a[1], a->a[0]); break;
    case K_FABS: if (a->k == K_FABS) return a; if (a->k == K_FNEG) return mkF(K_FABS, a->a[0]); break;
    case K_FSQRT: if (a->k == K_FMUL && a->a[0] == a->a[1]) return mkF(K_FABS, a->a[0]); break;
    default: break;
    }
    if (a->k == K_ITE && isC(a->a[1]) && isC(a->a[2]) && (!b || isC(b)))
      return mkIte(a->a[0], mkF(k, a->a[1], b), mkF(k, a->a[2], b));
  }
  return node(k, ty, w, a, b);
}
const Expr *mkFCmp(Kind k, const Expr *a, const Expr *b) {
  if (isUndef(a) || isUndef(b)) return mkUndef(T_BV, 1);
  if (isC(a) && isC(b)) {
    double x = asFP(a), y = asFP(b);
    switch (k) {
    case K_FLT: return mkConst(x < y, 1); case K_FLE: return mkConst(x <= y, 1);
    case K_FEQ: return mkConst(x == y, 1); case K_FUNO: return mkConst(std::isnan(x) || std::isnan(y), 1);
    default: break;
    }
  }
  if ((isC(a) && std::isnan(asFP(a))) || (isC(b) && std::isnan(asFP(b)))) return mkConst(k == K_FUNO, 1);
  if (!ecfg.fp) {
    if (k == K_FUNO) return F1();
    if (a == b) return mkConst(k != K_FLT, 1);
    if (isC(b) && std::isinf(asFP(b))) return mkConst(k == K_FEQ ? 0 : asFP(b) > 0, 1);
    if (isC(a) && std::isinf(asFP(a))) return mkConst(k == K_FEQ ? 0 : asFP(a) < 0, 1);
    if (k == K_FEQ && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (a->k == K_FPEXT && b->k == K_FPEXT) return mkFCmp(k, a->a[0], b->a[0]);
    if (a->k == K_ITE && isC(b) && (isC(a->a[1]) && isC(a->a[2]))) return mkIte(a->a[0], mkFCmp(k, a->a[1], b), mkFCmp(k, a->a[2], b));
    if (b->k == K_ITE && isC(a) && (isC(b->a[1]) && isC(b->a[2]))) return mkIte(b->a[0], mkFCmp(k, a, b->a[1]), mkFCmp(k, a, b->a[2]));
  } else if (a == b && k != K_FUNO) {
    if (k == K_FLT) return F1();
  }
  return node(k, T_BV, 1, a, b);
}
const Expr *mkCast(Kind k, const Expr *a, Ty ty, unsigned w) {
  if (isUndef(a)) return mkUndef(ty, w);
  if (isC(a)) switch (k) {
    case K_SITOFP: { int64_t x = sxt(a->cval, a->w); return ty == T_F64 ? mkF64((double)x) : mkF32((float)x); }
    case K_UITOFP: return ty == T_F64 ? mkF64((double)a->cval) : mkF32((float)a->cval);
    case K_FPTOSI: { double d = asFP(a); if (!(d > -9.3e18 && d < 9.3e18)) return mkUndef(ty, w); return mkConst((uint64_t)(int64_t)d, w); }
    case K_FPTOUI: { double d = asFP(a); if (!(d > -1 && d < 1.8e19)) return mkUndef(ty, w); return mkConst((uint64_t)d, w); }
    case K_FPEXT: return mkF64((double)asF32(a));
    case K_FPTRUNC: return mkF32((float)asF64(a));
    case K_F2I: return mkConst(a->cval, w);
    case K_I2F: return ty == T_F64 ? node(K_CONST, T_F64, 64, 0, 0, 0, a->cval) : node(K_CONST, T_F32, 32, 0, 0, 0, a->cval);
    default: break;
  }
  if (k == K_F2I && a->k == K_I2F) return a->a[0];
  if (k == K_I2F && a->k == K_F2I) return a->a[0];
  if (k == K_I2F && a->k == K_ITE) return mkIte(a->a[0], mkCast(k, a->a[1], ty, w), mkCast(k, a->a[2], ty, w));
  if (k == K_FPTRUNC && a->k == K_FPEXT) return a->a[0];
  if (!ecfg.fp && !ecfg.truncUF && k == K_FPEXT && a->k == K_FPTRUNC) return a->a[0];
  if ((k == K_SITOFP || k == K_UITOFP) && a->k == K_ITE && (isC(a->a[1]) || isC(a->a[2])))
    return mkIte(a->a[0], mkCast(k, a->a[1], ty, w), mkCast(k, a->a[2], ty, w));
  if (!ecfg.fp && k == K_FPTOSI && a->k == K_SITOFP && a->a[0]->w <= w) return mkSext(a->a[0], w);
  return node(k, ty, w, a);
}

// ---------------------------------------------------------------- UF
static std::vector<std::string> g_ufNames;
static std::map<std::string, uint32_t> g_ufIds;
const Expr *mkUF(const char *name, const std::vector<const Expr *> &args, Ty ty, unsigned w) {
  for (auto *x : args) if (isUndef(x)) return mkUndef(ty, w);
  auto it = g_ufIds.find(name);
  uint32_t id;
  if (it == g_ufIds.end()) { id = g_ufNames.size(); g_ufNames.push_back(name); g_ufIds[name] = id; } else id = it->second;
  Expr e = blank(K_UF, ty, w); e.aux = id;
  std::vector<const Expr *> v(args);
  e.more = &v;
  return intern(e);
}

// ---------------------------------------------------------------- words
static std::vector<std::vector<int>> g_words;
static std::map<std::vector<int>, uint32_t> g_wordIds;
static std::vector<std::string> g_gens{"?"};
static std::vector<int> invW(const std::vector<int> &w) { std::vector<int> r(w.rbegin(), w.rend()); for (auto &x : r) x = -x; return r; }
uint32_t wordId(const std::vector<int> &w) {
  auto it = g_wordIds.find(w);
  if (it != g_wordIds.end()) return it->second;
  uint32_t id = g_words.size(); g_words.push_back(w); g_wordIds[w] = id;
  auto iw = invW(w);
  if (!g_wordIds.count(iw)) { uint32_t j = g_words.size(); g_words.push_back(iw); g_wordIds[iw] = j; }
  return id;
}
const std::vector<int> &wordOf(uint32_t id) { return g_words[id]; }
uint32_t wordMul(uint32_t a, uint32_t b) {
  std::vector<int> r = g_words[a];
  for (int x : std::vector<int>(g_words[b])) { if (!r.empty() && r.back() == -x) r.pop_back(); else r.push_back(x); }
  return wordId(r);
}
uint32_t wordInv(uint32_t a) { return wordId(invW(g_words[a])); }
int newGenerator(const std::string &n) { g_gens.push_back(n); return (int)g_gens.size() - 1; }
const std::string &generatorName(int g) { return g_gens[g]; }
std::string wordStr(uint32_t id) {
  std::string s; for (int x : g_words[id]) { if (!s.empty()) s += "."; s += g_gens[std::abs(x)]; if (x < 0) s += "^-1"; }
  return s.empty() ? "I" : s;
}
const Expr *mkPose(uint32_t w, int i, int j) {
  if (g_words[w].empty()) return mkF64(i == j ? 1 : 0);
  if (j < 3) { uint32_t v = wordInv(w); if (v < w) { w = v; std::swap(i, j); } }
  Expr e = blank(K_POSE, T_F64, 64); e.aux = w; e.cval = i * 4 + j;
  return intern(e);
}
const Expr *mkRvec(uint32_t w, int k) {
  if (g_words[w].empty()) return mkF64(0);
  uint32_t v = wordInv(w);
  bool neg = v < w;
  Expr e = blank(K_RVEC, T_F64, 64); e.aux = neg ? v : w; e.cval = k;
  const Expr *r = intern(e);
  return neg ? mkF(K_FNEG, r) : r;
}
const Expr *poseExpand(const Expr *e) {
  const auto w = g_words[e->aux]; int i = e->cval / 4, j = e->cval % 4;
  if (w.size() == 1) {
    if (w[0] > 0) return nullptr;
    uint32_t g = wordId({-w[0]});
    if (j < 3) return mkPose(g, j, i);
    const Expr *s = nullptr;
    for (int k = 0; k < 3; k++) { const Expr *t = mkF(K_FMUL, mkPose(g, k, i), mkPose(g, k, 3)); s = s ? mkF(K_FADD, s, t) : t; }
    return mkF(K_FNEG, s);
  }
  uint32_t f = wordId({w[0]}), r = wordId(std::vector<int>(w.begin() + 1, w.end()));
  const Expr *s = nullptr;
  for (int k = 0; k < 3; k++) { const Expr *t = mkF(K_FMUL, mkPose(f, i, k), mkPose(r, k, j)); s = s ? mkF(K_FADD, s, t) : t; }
  if (j == 3) s = mkF(K_FADD, s, mkPose(f, i, 3));
  return s;
}

// ---------------------------------------------------------------- printing
std::string exprStr(const Expr *e, int depth) {
  static const char *nm[] = {"const", "sym", "undef", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "=", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "extract", "concat", "f+", "f-", "f*", "f/", "fneg", "fabs", "sqrt", "f<", "f<=", "f=", "uno", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "f2i", "i2f", "floor", "ceil", "trunc", "round", "rint", "uf", "pose", "rvec"};
  if (e->k == K_CONST) return e->ty == T_BV ? std::to_string(sxt(e->cval, e->w)) : std::to_string(asFP(e));
  if (e->k == K_SYM) return g_syms[e->cval].name;
  if (e->k == K_POSE) return "T[" + wordStr(e->aux) + "](" + std::to_string(e->cval / 4) + "," + std::to_string(e->cval % 4) + ")";
  if (e->k == K_RVEC) return "rvec[" + wordStr(e->aux) + "](" + std::to_string(e->cval) + ")";
  if (depth == 0) return "...";
  std::string s = "(" + (e->k == K_UF ? g_ufNames[e->aux] : std::string(nm[e->k]));
  if (e->k == K_EXTRACT) s += ":" + std::to_string(e->cval) + "+" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
  if (e->more) for (auto *x : *e->more) s += " " + exprStr(x, depth - 1);
  return s + ")";
}

// ---------------------------------------------------------------- lowering
z3::context &zctx() { static z3::context *c = new z3::context(); return *c; }
std::vector<z3::expr> &zaxioms() { static auto *v = new std::vector<z3::expr>(); return *v; }
static std::unordered_map<const Expr *, z3::expr> &zcache() { static auto *m = new std::unordered_map<const Expr *, z3::expr>(); return *m; }

static std::string pow2dec(int n) { std::string s = "1"; for (int i = 0; i < n; i++) { int c = 0; for (int j = (int)s.size() - 1; j >= 0; j--) { int d = (s[j] - '0') * 2 + c; s[j] = '0' + d % 10; c = d / 10; } if (c) s = std::string(1, '0' + c) + s; } return s; }
z3::expr realOf(double d) {
  z3::context &c = zctx();
  if (std::isnan(d) || std::isinf(d)) throw std::runtime_error("inf/nan in real arithmetic");
  if (d == std::floor(d) && std::fabs(d) < 1e15) return c.real_val(std::to_string((long long)d).c_str());
  int ex; double m = std::frexp(d, &ex); long long mi = (long long)std::ldexp(m, 53); ex -= 53;
  while (mi % 2 == 0 && mi) { mi /= 2; ex++; }
  if (ex < -1080) throw std::runtime_error("subnormal constant");
  std::string ms = std::to_string(mi);
  if (ex >= 0) return c.real_val(ms.c_str()) * c.real_val(pow2dec(ex).c_str());
  return c.real_val((ms + "/" + pow2dec(-ex)).c_str());
}
static z3::sort fpsort(Ty t) { return t == T_F64 ? zctx().fpa_sort(11, 53) : zctx().fpa_sort(8, 24); }
static z3::sort rsort() { return zctx().real_sort(); }
static z3::expr rne() { return z3::expr(zctx(), Z3_mk_fpa_round_nearest_ties_to_even(zctx())); }
static z3::expr b2bv(const z3::expr &b) { return z3::ite(b, zctx().bv_val(1, 1), zctx().bv_val(0, 1)); }

static z3::expr lower1(const Expr *e);
z3::expr lowerBool(const Expr *e) {
  z3::expr x = lower(e);
  return x;
}
// all width-1 BV expressions lower to Bool
z3::expr lower(const Expr *root) {
  auto &cache = zcache();
  auto it = cache.find(root);
  if (it != cache.end()) return it->second;
  // iterative post-order to avoid deep recursion
  std::vector<const Expr *> st{root};
  while (!st.empty()) {
    const Expr *e = st.back();
    if (cache.count(e)) { st.pop_back(); continue; }
    bool ready = true;
    auto need = [&](const Expr *x) { if (x && !cache.count(x)) { st.push_back(x); ready = false; } };
    if (e->k == K_POSE) { const Expr *x = poseExpand(e); if (x) need(x); }
    else { for (int i = 0; i < 3; i++) need(e->a[i]); if (e->more) for (auto *x : *e->more) need(x); }
    if (!ready) continue;
    cache.emplace(e, lower1(e));
    st.pop_back();
  }
  return cache.at(root);
}
static z3::expr toBV(const Expr *e) { z3::expr x = lower(e); return x.is_bool() ? b2bv(x) : x; }
static z3::expr fresh(const char *n, z3::sort s) { static int k = 0; return zctx().constant((std::string(n) + "!" + std::to_string(k++)).c_str(), s); }

static z3::expr lower1(const Expr *e) {
  z3::context &c = zctx();
  bool fp = ecfg.fp;
  auto A = [&](int i) { return lower(e->a[i]); };
  auto V = [&](int i) { return toBV(e->a[i]); };
  bool one = e->ty == T_BV && e->w == 1;
  switch (e->k) {
  case K_CONST:
    if (e->ty == T_BV) return one ? c.bool_val(e->cval != 0) : c.bv_val((uint64_t)e->cval, e->w);
    if (fp) { z3::expr bv = c.bv_val((uint64_t)e->cval, e->ty == T_F64 ? 64 : 32); return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv, fpsort(e->ty))); }
    return realOf(asFP(e));
  case K_SYM: {
    auto &s = g_syms[e->cval];
    std::string n = s.name;
    if (e->ty == T_BV) return one ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w);
    return c.constant(n.c_str(), fp ? fpsort(e->ty) : rsort());
  }
  case K_UNDEF: throw std::runtime_error("undef in a solver term");
  case K_ADD: if (one) return A(0) != A(1); return V(0) + V(1);
  case K_SUB: if (one) return A(0) != A(1); return V(0) - V(1);
  case K_MUL: if (one) return A(0) && A(1); return V(0) * V(1);
  case K_UDIV: return z3::udiv(V(0), V(1));
  case K_SDIV: return V(0) / V(1);
  case K_UREM: return z3::urem(V(0), V(1));
  case K_SREM: return z3::srem(V(0), V(1));
  case K_AND: return one ? (A(0) && A(1)) : (V(0) & V(1));
  case K_OR: return one ? (A(0) || A(1)) : (V(0) | V(1));
  case K_XOR: return one ? (isC(e->a[1]) ? !A(0) : A(0) != A(1)) : (V(0) ^ V(1));
  case K_SHL: return z3::shl(V(0), V(1));
  case K_LSHR: return z3::lshr(V(0), V(1));
  case K_ASHR: return z3::ashr(V(0), V(1));
  case K_EQ: { z3::expr x = A(0), y = A(1); return x == y; }
  case K_ULT: return z3::ult(V(0), V(1));
  case K_ULE: return z3::ule(V(0), V(1));
  case K_SLT: return V(0) < V(1);
  case K_SLE: return V(0) <= V(1);
  case K_ITE: return z3::ite(A(0), A(1), A(2));
  case K_ZEXT: return z3::zext(V(0), e->w - e->a[0]->w);
  case K_SEXT: return z3::sext(V(0), e->w - e->a[0]->w);
  case K_EXTRACT: { z3::expr x = V(0).extract((unsigned)e->cval + e->w - 1, (unsigned)e->cval); if (one) return x == c.bv_val(1, 1); return x; }
  case K_CONCAT: return z3::concat(V(0), V(1));
  case K_FADD: if (fp) return z3::expr(c, Z3_mk_fpa_add(c, rne(), A(0), A(1))); return A(0) + A(1);
  case K_FSUB: if (fp) return z3::expr(c, Z3_mk_fpa_sub(c, rne(), A(0), A(1))); return A(0) - A(1);
  case K_FMUL: if (fp) return z3::expr(c, Z3_mk_fpa_mul(c, rne(), A(0), A(1))); return A(0) * A(1);
  case K_FDIV: if (fp) return z3::expr(c, Z3_mk_fpa_div(c, rne(), A(0), A(1))); return A(0) / A(1);
  case K_FNEG: if (fp) return z3::expr(c, Z3_mk_fpa_neg(c, A(0))); return -A(0);
  case K_FABS: if (fp) return z3::expr(c, Z3_mk_fpa_abs(c, A(0))); { z3::expr x = A(0); return z3::ite(x >= 0, x, -x); }
  case K_FSQRT: {
    if (fp) return z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), A(0)));
    z3::expr x = A(0);
    z3::func_decl f = c.function("sqrt!", rsort(), rsort()); z3::expr s = f(x);
    zaxioms().push_back(z3::implies(x >= 0, s >= 0 && s * s == x));
    return s;
  }
  case K_FLT: if (fp) return z3::expr(c, Z3_mk_fpa_lt(c, A(0), A(1))); return A(0) < A(1);
  case K_FLE: if (fp) return z3::expr(c, Z3_mk_fpa_leq(c, A(0), A(1))); return A(0) <= A(1);
  case K_FEQ: if (fp) return z3::expr(c, Z3_mk_fpa_eq(c, A(0), A(1))); return A(0) == A(1);
  case K_FUNO: if (fp) return z3::expr(c, Z3_mk_fpa_is_nan(c, A(0))) || z3::expr(c, Z3_mk_fpa_is_nan(c, A(1))); return c.bool_val(false);
  case K_SITOFP: if (fp) return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), V(0), fpsort(e->ty)));
    return z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(0), true)));
  case K_UITOFP: if (fp) return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), V(0), fpsort(e->ty)));
    return z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(0), false)));
  case K_FPTOSI: {
    if (fp) return z3::expr(c, Z3_mk_fpa_to_sbv(c, z3::expr(c, Z3_mk_fpa_round_toward_zero(c)), A(0), e->w));
    z3::expr x = A(0); z3::expr i = z3::ite(x >= 0, z3::expr(c, Z3_mk_real2int(c, x)), -z3::expr(c, Z3_mk_real2int(c, -x)));
    return z3::expr(c, Z3_mk_int2bv(c, e->w, i));
  }
  case K_FPTOUI: {
    if (fp) return z3::expr(c, Z3_mk_fpa_to_ubv(c, z3::expr(c, Z3_mk_fpa_round_toward_zero(c)), A(0), e->w));
    return z3::expr(c, Z3_mk_int2bv(c, e->w, z3::expr(c, Z3_mk_real2int(c, A(0)))));
  }
  case K_FPEXT: if (fp) return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), A(0), fpsort(e->ty))); return A(0);
  case K_FPTRUNC: if (fp) return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), A(0), fpsort(e->ty)));
    if (ecfg.truncUF) { z3::func_decl f = c.function("round32!", rsort(), rsort()); return f(A(0)); }
    return A(0);
  case K_F2I: if (fp) return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, A(0))); { z3::func_decl f = c.function(e->w == 64 ? "f2i64!" : "f2i32!", rsort(), c.bv_sort(e->w)); return f(A(0)); }
  case K_I2F: if (fp) return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, V(0), fpsort(e->ty))); { z3::func_decl f = c.function(e->w == 64 ? "i2f64!" : "i2f32!", c.bv_sort(e->w), rsort()); return f(V(0)); }
  case K_FFLOOR: if (fp) return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_round_toward_negative(c)), A(0)));
    return z3::to_real(z3::expr(c, Z3_mk_real2int(c, A(0))));
  case K_FCEIL: if (fp) return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_round_toward_positive(c)), A(0)));
    return -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A(0))));
  case K_FTRUNC: if (fp) return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_round_toward_zero(c)), A(0)));
    { z3::expr x = A(0); return z3::ite(x >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, x))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -x)))); }
  case K_FROUND: case K_FRINT: if (fp) return z3::expr(c, Z3_mk_fpa_round_to_integral(c, e->k == K_FRINT ? rne() : z3::expr(c, Z3_mk_fpa_round_nearest_ties_to_away(c)), A(0)));
    if (e->k == K_FRINT) { z3::expr y = A(0) + c.real_val("1/2"); z3::expr i(c, Z3_mk_real2int(c, y)); return z3::to_real(z3::ite(z3::to_real(i) == y && z3::mod(i, 2) == 1, i - 1, i)); }
    { z3::expr x = A(0); z3::expr h = c.real_val("1/2"); return z3::ite(x >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, x + h))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, h - x)))); }
  case K_UF: {
    z3::sort_vector sv(c); z3::expr_vector ev(c);
    for (auto *x : *e->more) { z3::expr y = lower(x); sv.push_back(y.get_sort()); ev.push_back(y); }
    z3::sort rs = e->ty == T_BV ? (one ? c.bool_sort() : c.bv_sort(e->w)) : fp ? fpsort(e->ty) : rsort();
    std::string n = g_ufNames[e->aux] + "!uf";
    z3::func_decl f = c.function(n.c_str(), sv, rs);
    z3::expr r = f(ev);
    if (!fp && e->ty != T_BV) {
      const std::string &nm = g_ufNames[e->aux];
      if (nm == "sin" || nm == "cos") {
        z3::func_decl g = c.function(nm == "sin" ? "cos!uf" : "sin!uf", sv, rs);
        z3::expr o = g(ev);
        zaxioms().push_back(r * r + o * o == 1);
        zaxioms().push_back(r <= 1 && r >= -1);
      } else if (nm == "atan") {
        z3::expr x = ev[0];
        zaxioms().push_back(z3::implies(x > 0, r > 0 && r < x) && z3::implies(x < 0, r < 0 && r > x) && z3::implies(x == 0, r == 0));
        zaxioms().push_back(r < c.real_val("1571/1000") && r > c.real_val("-1571/1000"));
      } else if (nm == "acos") {
        zaxioms().push_back(r >= 0 && r < c.real_val("3142/1000"));
      } else if (nm == "exp") zaxioms().push_back(r > 0);
    }
    return r;
  }
  case K_POSE: {
    const Expr *x = poseExpand(e);
    if (x) return lower(x);
    std::string n = "T_" + wordStr(e->aux) + "_" + std::to_string(e->cval / 4) + std::to_string(e->cval % 4);
    return c.constant(n.c_str(), rsort());
  }
  case K_RVEC: {
    std::string n = "rv_" + wordStr(e->aux) + "_" + std::to_string(e->cval);
    return c.constant(n.c_str(), rsort());
  }
  }
  throw std::runtime_error("lower: unknown kind");
}
// Z3 keeps the order in which the terms of a sum appear
z3::expr sortSum(z3::expr x) {
  if (!x.is_app() || x.decl().decl_kind() != Z3_OP_ADD || x.num_args() < 2) return x;
  std::vector<z3::expr> v; for (unsigned i = 0; i < x.num_args(); i++) v.push_back(x.arg(i));
  std::sort(v.begin(), v.end(), [](const z3::expr &a, const z3::expr &b) { return a.id() < b.id(); });
  std::vector<Z3_ast> w; for (auto &y : v) w.push_back(y);
  static auto &keep = *new std::vector<z3::expr>(); for (auto &y : v) keep.push_back(y); // ids stay valid
  return z3::expr(x.ctx(), Z3_mk_add(x.ctx(), (unsigned)w.size(), w.data()));
}
z3::expr lowerNorm(const Expr *e) {
  static auto &cache = *new std::unordered_map<const Expr *, z3::expr>();
  auto it = cache.find(e); if (it != cache.end()) return it->second;
  z3::context &c = zctx();
  static z3::params *ps = nullptr; if (!ps) { ps = new z3::params(c); ps->set("som", true); ps->set("flat", true); ps->set("hoist_mul", false); ps->set("som_blowup", 5000u); }
  auto A = [&](int i) { return lowerNorm(e->a[i]); };
  auto can = [&](z3::expr x) { return sortSum(x.simplify(*ps)); };
  z3::expr r(c);
  if (e->ty == T_BV || ecfg.fp) r = lower(e);
  else switch (e->k) {
  case K_FADD: r = A(0) + A(1); break; case K_FSUB: r = A(0) - A(1); break; case K_FMUL: r = A(0) * A(1); break; case K_FNEG: r = -A(0); break;
  case K_FDIV: {
    z3::expr n = A(0), d = can(A(1)); z3::func_decl inv = c.function("inv!", rsort(), rsort());
    if (d.is_numeral()) { if (d.get_decimal_string(3) == "0") r = lower(e); else r = n / d; break; }
    std::vector<z3::expr> fs{d}; if (d.is_app() && d.decl().decl_kind() == Z3_OP_MUL) { fs.clear(); for (unsigned i = 0; i < d.num_args(); i++) fs.push_back(d.arg(i)); }
    for (auto &f : fs) { if (f.is_numeral()) { n = n / f; continue; } if (f.is_app() && f.decl().decl_kind() == Z3_OP_POWER && f.arg(1).is_numeral() && Z3_get_numeral_double(c, f.arg(1)) == (int)Z3_get_numeral_double(c, f.arg(1)) && Z3_get_numeral_double(c, f.arg(1)) > 0) { for (int k = 0; k < (int)Z3_get_numeral_double(c, f.arg(1)); k++) n = n * inv(f.arg(0)); } else n = n * inv(f); }
    r = n; break;
  }
  case K_FSQRT: { z3::func_decl f = c.function("sqrt!", rsort(), rsort()); r = f(can(A(0))); break; }
  case K_FPEXT: r = A(0); break;
  case K_FPTRUNC: if (ecfg.truncUF) { z3::func_decl f = c.function("round32!", rsort(), rsort()); r = f(can(A(0))); } else r = A(0); break;
  case K_ITE: r = z3::ite(lower(e->a[0]), can(A(1)), can(A(2))); break;
  case K_UF: {
    z3::sort_vector sv(c); z3::expr_vector ev(c);
    for (auto *x : *e->more) { z3::expr y = x->ty == T_BV ? lower(x) : can(lowerNorm(x)); sv.push_back(y.get_sort()); ev.push_back(y); }
    z3::func_decl f = c.function((g_ufNames[e->aux] + "!uf").c_str(), sv, rsort()); r = f(ev); break;
  }
  case K_POSE: { const Expr *x = poseExpand(e); r = x ? lowerNorm(x) : lower(e); break; }
  default: r = lower(e);
  }
  cache.emplace(e, r); return r;
}
