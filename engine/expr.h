// Symbolic expression DAG: hash-consed, simplified on construction, lowered to
// Z3 terms lazily.  Integers are bit-vectors; floating point values are either
// exact reals ("real" mode) or IEEE terms ("fp" mode).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

enum Kind : uint8_t {
  K_CONST, K_SYM, K_UNDEF,
  // bit-vector
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  // floating point
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FSQRT,
  K_FLT, K_FLE, K_FEQ, K_FUNO,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC,
  K_F2I, K_I2F,
  K_FFLOOR, K_FCEIL, K_FTRUNC, K_FROUND, K_FRINT,
  K_UF,   // uninterpreted function; name in aux, args in kids
  K_POSE, // entry (i,j) of a word of rigid-motion generators: aux=word, cval=i*4+j
  K_RVEC, // entry k of the rotation vector of a word
};

enum Ty : uint8_t { T_BV, T_F32, T_F64 };

struct Expr {
  Kind k; Ty ty; uint8_t w; uint8_t n; // w: width of BV
  uint32_t id;
  uint64_t cval;   // constant bits / symbol id / extract lo / pose index
  uint32_t aux;    // UF id / word id
  const Expr *a[3];
  std::vector<const Expr *> *more; // UF with >3 args
  uint64_t hash;
};

struct ExprCfg { bool fp = false; bool truncUF = false; };
extern ExprCfg ecfg;

const Expr *mkConst(uint64_t v, unsigned w);
const Expr *mkF64(double d);
const Expr *mkF32(float f);
const Expr *mkSym(const std::string &name, Ty ty, unsigned w);
const Expr *mkUndef(Ty ty, unsigned w);
const Expr *mkBin(Kind k, const Expr *a, const Expr *b);   // bv binary
const Expr *mkCmp(Kind k, const Expr *a, const Expr *b);   // EQ..SLE
const Expr *mkNot(const Expr *a);
const Expr *mkAndB(const Expr *a, const Expr *b);
const Expr *mkOrB(const Expr *a, const Expr *b);
const Expr *mkIte(const Expr *c, const Expr *t, const Expr *f);
const Expr *mkZext(const Expr *a, unsigned w);
const Expr *mkSext(const Expr *a, unsigned w);
const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w);
const Expr *mkConcat(const Expr *hi, const Expr *lo);
const Expr *mkF(Kind k, const Expr *a, const Expr *b = nullptr);
const Expr *mkFCmp(Kind k, const Expr *a, const Expr *b);
const Expr *mkCast(Kind k, const Expr *a, Ty ty, unsigned w);
const Expr *mkUF(const char *name, const std::vector<const Expr *> &args, Ty ty, unsigned w);
const Expr *mkPose(uint32_t word, int i, int j);
const Expr *mkRvec(uint32_t word, int k);
const Expr *poseExpand(const Expr *e); // one level of product expansion or null

inline bool isC(const Expr *e) { return e->k == K_CONST; }
inline bool isUndef(const Expr *e) { return e->k == K_UNDEF; }
inline double asF64(const Expr *e) { double d; memcpy(&d, &e->cval, 8); return d; }
inline float asF32(const Expr *e) { float d; uint32_t c = (uint32_t)e->cval; memcpy(&d, &c, 4); return d; }
inline double asFP(const Expr *e) { return e->ty == T_F64 ? asF64(e) : asF32(e); }
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

// words of rigid motions
uint32_t wordId(const std::vector<int> &w);           // interned (reduced) word
const std::vector<int> &wordOf(uint32_t id);
uint32_t wordMul(uint32_t a, uint32_t b);
uint32_t wordInv(uint32_t a);
int newGenerator(const std::string &name);            // returns generator number >=1
const std::string &generatorName(int g);
std::string wordStr(uint32_t id);

struct SymInfo { std::string name; Ty ty; unsigned w; const Expr *e; };
extern std::vector<SymInfo> g_syms;

std::string exprStr(const Expr *e, int depth = 6);
z3::expr lower(const Expr *e);
z3::expr lowerNorm(const Expr *e); // real terms with a/b as a*inv(b) and canonical function arguments
z3::expr sortSum(z3::expr x);
z3::context &zctx();
