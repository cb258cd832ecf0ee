static void retFrom(V *vals, uint32_t n) {
  Thread &T = MC->T(); Frame fr = T.fr.back(); T.fr.pop_back();
  while (T.allocas.size() > fr.allocaMark) {
    uint64_t a = T.allocas.back(); T.allocas.pop_back();
    Obj *o = objAt(a); o->state = 2; uint64_t cls = (o->size + 15) & ~15ULL; if (!cls) cls = 16;
    g_freeAlloca[cls].push_back(g_gran[(a - ABASE) >> 4]);
  }
  if (!T.fr.empty()) {
    Frame &p = T.fr.back();
    if (fr.retSlot >= 0) for (uint32_t i = 0; i < n && i < fr.nret; i++) p.regs[fr.retSlot + i] = vals[i];
  }
  T.sp = fr.regs;
}
static void takeEdge(Frame &f, int e) {
  Edge &ed = f.f->edges[e];
  size_t n = ed.mv.size();
  if (n) {
    V tmp[64]; V *t = n <= 64 ? tmp : new V[n];
    for (size_t i = 0; i < n; i++) { int32_t s = ed.mv[i].second; t[i] = s >= 0 ? f.regs[s] : f.f->consts[~s]; }
    for (size_t i = 0; i < n; i++) f.regs[ed.mv[i].first] = t[i];
    if (n > 64) delete[] t;
  }
  f.pc = ed.pc;
}
static std::string demangleHint(const std::string &s) { return s; }
static void pushCall(DFunc *f, V *args, int n, int32_t retSlot, uint32_t nret, int32_t retEdge) {
  Thread &T = MC->T();
  if (f->intrin >= 0) {
    V ret[16]; for (auto &r : ret) r = {0, nullptr};
    MC->intrins[f->intrin](*MC, args, n, ret);
    Frame &p = T.fr.back(); // the calling thread, even when the call switched threads
    if (retSlot >= 0) for (uint32_t i = 0; i < nret; i++) p.regs[retSlot + i] = ret[i];
    if (retEdge >= 0) takeEdge(p, retEdge);
    return;
  }
  if (!f->hasBody) pathUnsup("call of unmodelled function " + demangleHint(f->name));
  if (!f->decoded) MC->decode(f);
  S->fnHit[f->idx & 65535] = 1;
  if (T.fr.size() > 20000) pathError("recursion", "call depth exceeded");
  Frame fr; fr.f = f; fr.pc = 0; fr.regs = T.sp; fr.retSlot = retSlot; fr.nret = nret; fr.retEdge = retEdge; fr.allocaMark = T.allocas.size();
  for (uint32_t i = 0; i < f->nargs && (int)i < n; i++) fr.regs[i] = args[i];
  T.sp += f->nslots + 4;
  T.fr.push_back(fr);
}
static bool schedule();

#define OPV(x) ((x) >= 0 ? R_[x] : C_[~(x)])
static inline double dOf(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static inline float fOf(uint64_t c) { float d; uint32_t u = (uint32_t)c; memcpy(&d, &u, 4); return d; }
static inline uint64_t bitsOf(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static inline uint64_t bitsOf(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }

static uint64_t addrOf(const V &v, const char *what) { return v.e ? concretize(v.e, what) : v.c; }

void Machine::run() {
  size_t base = T().fr.size() - 1; int baseThread = cur;
  (void)base;
  for (;;) {
    if (T().fr.empty()) {
      if (cur == baseThread && cur == 0) return;
      T().done = true;
      if (!schedule()) pathError("deadlock", "no runnable thread");
      continue;
    }
    Frame *F_ = &T().fr.back(); DFunc *D_ = F_->f; V *R_ = F_->regs; V *C_ = D_->consts.data();
    // run inside one frame until control changes
    for (;;) {
      DInst &d = D_->code[F_->pc++];
      if ((++steps & 0xffff) == 0) {
        if (steps > g_maxSteps) pathError("steps", "step bound exceeded (possible non-termination)");
        if (S->stop) endPath("stop");
        if (now() > g_deadline) { S->timeouts++; S->stop = 1; emit("{\"t\":\"bound\",\"why\":\"deadline\",\"at\":\"" + jesc(whereAmI()) + "\"}"); endPath("timeout"); }
        if (g_brk - ABASE > (20ULL << 30)) pathError("memory", "allocation bound exceeded");
      }
      switch (d.op) {
      case O_NOP: break;
      case O_COPY: R_[d.dst] = OPV(d.a); break;
      case O_BINI: {
        V a = OPV(d.a), b = OPV(d.b); unsigned w = d.w; V r{0, nullptr};
        if (!a.e && !b.e) {
          uint64_t x = a.c, y = b.c;
          switch (d.sub) {
          case Instruction::Add: r.c = x + y; break; case Instruction::Sub: r.c = x - y; break; case Instruction::Mul: r.c = x * y; break;
          case Instruction::And: r.c = x & y; break; case Instruction::Or: r.c = x | y; break; case Instruction::Xor: r.c = x ^ y; break;
          case Instruction::Shl: r.c = y >= w ? 0 : x << y; break; case Instruction::LShr: r.c = y >= w ? 0 : x >> y; break;
          case Instruction::AShr: { int64_t s = sxt(x, w); r.c = y >= w ? (uint64_t)(s >> 63) : (uint64_t)(s >> y); break; }
          case Instruction::UDiv: if (!y) pathError("div0", "division by zero"); r.c = x / y; break;
          case Instruction::URem: if (!y) pathError("div0", "division by zero"); r.c = x % y; break;
          case Instruction::SDiv: if (!y) pathError("div0", "division by zero"); r.c = sxt(y, w) == -1 ? -x : (uint64_t)(sxt(x, w) / sxt(y, w)); break;
          case Instruction::SRem: if (!y) pathError("div0", "division by zero"); r.c = sxt(y, w) == -1 ? 0 : (uint64_t)(sxt(x, w) % sxt(y, w)); break;
          }
          r.c &= maskw(w);
        } else {
          const Expr *ea = ex(a, T_BV, w), *eb = ex(b, T_BV, w); Kind k = K_ADD;
          switch (d.sub) {
          case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
          case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
          case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
          case Instruction::UDiv: k = K_UDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::SRem: k = K_SREM; break;
          }
          if (k >= K_UDIV && k <= K_SREM) { if (branchOn(mkCmp(K_EQ, eb, mkConst(0, w)))) pathError("div0", "division by zero"); }
          r = toV(mkBin(k, ea, eb));
        }
        R_[d.dst] = r; break;
      }
      case O_BINF: {
        V a = OPV(d.a), b = OPV(d.b);
        if (!a.e && !b.e) {
          if (d.ty == T_F64) { double x = dOf(a.c), y = dOf(b.c), z = d.sub == Instruction::FAdd ? x + y : d.sub == Instruction::FSub ? x - y : d.sub == Instruction::FMul ? x * y : x / y; R_[d.dst] = {bitsOf(z), nullptr}; }
          else { float x = fOf(a.c), y = fOf(b.c), z = d.sub == Instruction::FAdd ? x + y : d.sub == Instruction::FSub ? x - y : d.sub == Instruction::FMul ? x * y : x / y; R_[d.dst] = {bitsOf(z), nullptr}; }
        } else {
          Kind k = d.sub == Instruction::FAdd ? K_FADD : d.sub == Instruction::FSub ? K_FSUB : d.sub == Instruction::FMul ? K_FMUL : K_FDIV;
          R_[d.dst] = toV(mkF(k, ex(a, d.ty, d.w), ex(b, d.ty, d.w)));
        }
        break;
      }
      case O_FNEG: { V a = OPV(d.a); if (!a.e) R_[d.dst] = {d.ty == T_F64 ? bitsOf(-dOf(a.c)) : bitsOf(-fOf(a.c)), nullptr}; else R_[d.dst] = toV(mkF(K_FNEG, a.e)); break; }
      case O_ICMP: {
        V a = OPV(d.a), b = OPV(d.b); unsigned w = d.w;
        if (!a.e && !b.e) {
          uint64_t x = a.c, y = b.c; int64_t sx = sxt(x, w), sy = sxt(y, w); bool r = false;
          switch (d.sub) {
          case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
          case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
          case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
          }
          R_[d.dst] = {r, nullptr};
        } else {
          const Expr *x = ex(a, T_BV, w), *y = ex(b, T_BV, w), *r = nullptr;
          switch (d.sub) {
          case CmpInst::ICMP_EQ: r = mkCmp(K_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(K_EQ, x, y)); break;
          case CmpInst::ICMP_ULT: r = mkCmp(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(K_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkCmp(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(K_ULE, y, x); break;
          case CmpInst::ICMP_SLT: r = mkCmp(K_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkCmp(K_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(K_SLE, y, x); break;
          }
          R_[d.dst] = toV(r);
        }
        break;
      }
      case O_FCMP: {
        V a = OPV(d.a), b = OPV(d.b);
        if (!a.e && !b.e) {
          double x = d.ty == T_F64 ? dOf(a.c) : fOf(a.c), y = d.ty == T_F64 ? dOf(b.c) : fOf(b.c); bool un = std::isnan(x) || std::isnan(y), r = false;
          switch (d.sub) {
          case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
          case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
          case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
          }
          R_[d.dst] = {r, nullptr};
        } else {
          const Expr *x = ex(a, d.ty, d.w), *y = ex(b, d.ty, d.w), *r = nullptr, *un = mkFCmp(K_FUNO, x, y);
          switch (d.sub) {
          case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
          case CmpInst::FCMP_OEQ: r = mkFCmp(K_FEQ, x, y); break; case CmpInst::FCMP_OGT: r = mkFCmp(K_FLT, y, x); break; case CmpInst::FCMP_OGE: r = mkFCmp(K_FLE, y, x); break; case CmpInst::FCMP_OLT: r = mkFCmp(K_FLT, x, y); break; case CmpInst::FCMP_OLE: r = mkFCmp(K_FLE, x, y); break;
          case CmpInst::FCMP_ONE: r = mkAndB(mkNot(un), mkNot(mkFCmp(K_FEQ, x, y))); break;
          case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = mkOrB(un, mkFCmp(K_FEQ, x, y)); break; case CmpInst::FCMP_UGT: r = mkOrB(un, mkFCmp(K_FLT, y, x)); break; case CmpInst::FCMP_UGE: r = mkOrB(un, mkFCmp(K_FLE, y, x)); break; case CmpInst::FCMP_ULT: r = mkOrB(un, mkFCmp(K_FLT, x, y)); break; case CmpInst::FCMP_ULE: r = mkOrB(un, mkFCmp(K_FLE, x, y)); break;
          case CmpInst::FCMP_UNE: r = mkOrB(un, mkNot(mkFCmp(K_FEQ, x, y))); break;
          }
          R_[d.dst] = toV(r);
        }
        break;
      }
      case O_SELECT: {
        V c = OPV(d.a), a = OPV(d.b), b = OPV(d.c);
        if (!c.e) R_[d.dst] = (c.c & 1) ? a : b;
        else {
          const Expr *x = ex(a, d.ty, d.w), *y = ex(b, d.ty, d.w);
          if (isUndef(c.e)) R_[d.dst] = {0, mkUndef(d.ty, d.w)};
          else if (x == y) R_[d.dst] = a;
          else if (MC->known.count(c.e)) R_[d.dst] = MC->known[c.e] ? a : b;
          else if (d.flag || (MC->forkSel && d.ty != T_BV) || isUndef(x) || isUndef(y) || (!ecfg.fp && d.ty != T_BV && ((isC(x) && !std::isfinite(asFP(x))) || (isC(y) && !std::isfinite(asFP(y))))))
            R_[d.dst] = branchOn(c.e) ? a : b;
          else R_[d.dst] = toV(mkIte(c.e, x, y));
        }
        break;
      }
      case O_LOAD: {
        V p = OPV(d.a); uint64_t a = (p.e ? concretize(p.e, "address") : p.c) + d.n;
        V v = memLoad(a, {d.ty, d.w, d.bytes});
        if (threads.size() > 1) raceCheck(a, d.bytes, false);
        R_[d.dst] = v; break;
      }
      case O_STORE: {
        V p = OPV(d.a); uint64_t a = (p.e ? concretize(p.e, "address") : p.c) + d.n;
        memStore(a, OPV(d.b), {d.ty, d.w, d.bytes});
        if (threads.size() > 1) raceCheck(a, d.bytes, true);
        break;
      }
      case O_GEP: {
        V p = OPV(d.a); GepInfo &g = D_->geps[d.aux];
        if (p.e) { if (isUndef(p.e)) { R_[d.dst] = p; break; } }
        uint64_t off = g.off; const Expr *se = nullptr; bool und = false;
        for (size_t i = 0; i < g.terms.size(); i++) {
          V x = OPV(g.terms[i].first);
          if (!x.e) off += (uint64_t)(sxt(x.c, g.ws[i]) * g.terms[i].second);
          else { if (isUndef(x.e)) { und = true; break; } const Expr *t = mkBin(K_MUL, mkSext(x.e, 64), mkConst((uint64_t)g.terms[i].second, 64)); se = se ? mkBin(K_ADD, se, t) : t; }
        }
        if (und) { R_[d.dst] = {0, mkUndef(T_BV, 64)}; break; }
        if (!se && !p.e) R_[d.dst] = {p.c + off, nullptr};
        else { const Expr *r = ex(p, T_BV, 64); if (se) r = mkBin(K_ADD, r, se); if (off) r = mkBin(K_ADD, r, mkConst(off, 64)); R_[d.dst] = toV(r); }
        break;
      }
      case O_ALLOCA: { V n = OPV(d.a); uint64_t k = addrOf(n, "alloca size"); uint64_t a = memAlloc(k * d.n, OK_STACK, d.aux); T().allocas.push_back(a); R_[d.dst] = {a, nullptr}; break; }
      case O_ZEXT: { V a = OPV(d.a); R_[d.dst] = a.e ? toV(mkZext(a.e, d.w)) : a; break; }
      case O_SEXT: { V a = OPV(d.a); R_[d.dst] = a.e ? toV(mkSext(a.e, d.w)) : V{(uint64_t)sxt(a.c, d.w2) & maskw(d.w), nullptr}; break; }
      case O_TRUNCI: { V a = OPV(d.a); R_[d.dst] = a.e ? toV(mkExtract(a.e, 0, d.w)) : V{a.c & maskw(d.w), nullptr}; break; }
      case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: case O_F2I: case O_I2F: {
        V a = OPV(d.a);
        if (d.op == O_I2F && d.flag) { // reassembly between lane counts
          const Expr *r = nullptr;
          for (unsigned k = 0; k < d.n; k++) { V x = OPV(Decoder::at(d.a, k)); const Expr *e = ex(x, d.ty2, d.w2); e = asBV(e); r = r ? mkConcat(e, r) : e; }
          for (int k = 0; k < d.aux; k++) R_[d.dst + k] = toV(coerce(mkExtract(r, k * d.w, d.w), {d.ty, d.w, (uint8_t)(d.w / 8)}));
          break;
        }
        static const Kind ks[] = {K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FPEXT, K_FPTRUNC, K_F2I, K_I2F};
        if (!a.e && (d.op == O_F2I || d.op == O_I2F)) { R_[d.dst] = a; break; }
        if (!a.e && d.op == O_SITOFP && d.ty == T_F64) { R_[d.dst] = {bitsOf((double)sxt(a.c, d.w2)), nullptr}; break; }
        R_[d.dst] = toV(mkCast(ks[d.op - O_FPTOSI], ex(a, d.ty2, d.w2), d.ty, d.w)); break;
      }
      case O_BR: takeEdge(*F_, d.a); break;
      case O_CBR: { V c = OPV(d.a); bool b = c.e ? branchOn(c.e) : (c.c & 1); takeEdge(*F_, b ? d.b : d.c); break; }
      case O_SWITCH: {
        V c = OPV(d.a); SwitchInfo &si = D_->switches[d.aux]; int e = si.def;
        if (!c.e) { for (auto &p : si.cases) if (p.first == c.c) { e = p.second; break; } }
        else { if (isUndef(c.e)) pathError("uninit", "switch on uninitialised value"); for (auto &p : si.cases) if (branchOn(mkCmp(K_EQ, c.e, mkConst(p.first, d.w)))) { e = p.second; break; } }
        takeEdge(*F_, e); break;
      }
      case O_CALL: {
        CallInfo &ci = D_->calls[d.aux]; DFunc *g = ci.callee;
        if (!g) {
          V p = OPV(ci.indirect); uint64_t a = addrOf(p, "function pointer"); auto it = faddr.find(a);
          if (it == faddr.end()) pathError(a < 4096 ? "null" : "badcall", "call through an invalid function pointer");
          g = it->second;
        }
        V argb[64]; V *args = argb; std::vector<V> big; int n = ci.args.size();
        if (n > 64) { big.resize(n); args = big.data(); }
        for (int i = 0; i < n; i++) args[i] = OPV(ci.args[i]);
        for (auto &bv : ci.byval) { uint64_t a = memAlloc(bv.second, OK_STACK, 16); T().allocas.push_back(a); memCopy(a, addrOf(args[bv.first], "byval"), bv.second); args[bv.first] = {a, nullptr}; }
        pushCall(g, args, n, d.dst, d.n, ci.normal);
        goto frame_changed;
      }
      case O_RET: {
        V vals[64]; uint32_t n = d.n > 64 ? 64 : d.n;
        for (uint32_t i = 0; i < n; i++) vals[i] = OPV(Decoder::at(d.a, i));
        int32_t re = F_->retEdge;
        retFrom(vals, n);
        if (re >= 0 && !T().fr.empty()) takeEdge(T().fr.back(), re);
        if (T().fr.empty() && threads.size() == 1) return;
        goto frame_changed;
      }
      case O_RMW: {
        uint64_t a = addrOf(OPV(d.a), "address"); ScalarTy st{d.ty, d.w, d.bytes}; V o = memLoad(a, st), b = OPV(d.b), r{0, nullptr};
        const Expr *x = ex(o, T_BV, d.w), *y = ex(b, T_BV, d.w);
        switch (d.sub) {
        case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = toV(mkBin(K_ADD, x, y)); break; case AtomicRMWInst::Sub: r = toV(mkBin(K_SUB, x, y)); break;
        case AtomicRMWInst::And: r = toV(mkBin(K_AND, x, y)); break; case AtomicRMWInst::Or: r = toV(mkBin(K_OR, x, y)); break;
        default: pathUnsup("atomicrmw");
        }
        memStore(a, r, st); R_[d.dst] = o; break;
      }
      case O_CMPXCHG: {
        uint64_t a = addrOf(OPV(d.a), "address"); ScalarTy st{d.ty, d.w, d.bytes}; V o = memLoad(a, st);
        bool eq = branchOn(mkCmp(K_EQ, ex(o, T_BV, d.w), ex(OPV(d.b), T_BV, d.w)));
        if (eq) memStore(a, OPV(d.c), st);
        R_[d.dst] = o; R_[d.dst + 1] = {eq, nullptr}; break;
      }
      case O_UNREACH: pathError("unreachable", "unreachable code executed");
      case O_UNSUP: pathUnsup(std::string("instruction ") + (d.I ? d.I->getOpcodeName() : "?"));
      }
      continue;
    frame_changed:
      break;
    }
  }
}
