// LLVM function -> flat internal code; aggregates and vectors are flattened into scalar slots
struct Decoder {
  Machine &m; DFunc *f; const Function &F;
  DenseMap<const Value *, int32_t> slot; DenseMap<const Constant *, int32_t> cslot;
  DenseMap<const BasicBlock *, uint32_t> bpc;
  std::vector<std::pair<uint32_t, const BasicBlock *>> edgeTodo; // edge -> target
  Decoder(Machine &m, DFunc *f) : m(m), f(f), F(*f->F) {}
  int32_t op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return it->second;
      int32_t id = ~(int32_t)f->consts.size();
      std::vector<V> vs; constFlat(c, vs);
      for (auto &x : vs) f->consts.push_back(x);
      cslot[c] = id; return id;
    }
    auto it = slot.find(v);
    if (it == slot.end()) { return ~(int32_t)0; }
    return it->second;
  }
  static int32_t at(int32_t base, int k) { return base >= 0 ? base + k : base - k; }
  int32_t alloc(const Value *v, unsigned n) { int32_t s = f->nslots; f->nslots += n; slot[v] = s; return s; }
  DInst &add(Op o, const Instruction *I) { DInst d; memset(&d, 0, sizeof d); d.op = o; d.I = I; d.dst = -1; f->code.push_back(d); return f->code.back(); }
  void unsup(const Instruction *I) { add(O_UNSUP, I); }
  int newEdge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = 0;
    for (auto &phi : to->phis()) {
      unsigned n = nleaves(phi.getType());
      int32_t s = op(phi.getIncomingValueForBlock(from)), d = slot[&phi];
      for (unsigned k = 0; k < n; k++) e.mv.push_back({d + (int)k, at(s, k)});
    }
    f->edges.push_back(e);
    edgeTodo.push_back({(uint32_t)f->edges.size() - 1, to});
    return f->edges.size() - 1;
  }
  void run() {
    for (auto &a : F.args()) { unsigned n = nleaves(a.getType()); alloc(&a, n); f->nargs += n; }
    f->nret = nleaves(F.getReturnType());
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) alloc(&I, std::max(1u, nleaves(I.getType())));
    for (auto &B : F) {
      bpc[&B] = f->code.size();
      for (auto &I : B) inst(I);
    }
    for (auto &p : edgeTodo) f->edges[p.first].pc = bpc[p.second];
    f->decoded = true;
  }
  void callInst(const CallBase &C) {
    if (isa<DbgInfoIntrinsic>(C)) return;
    if (auto *ii = dyn_cast<IntrinsicInst>(&C)) switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: { auto &d = add(O_COPY, &C); d.dst = slot[&C]; d.a = op(C.getArgOperand(0)); return; }
      default: break;
    }
    if (C.isInlineAsm()) { auto *ia = cast<InlineAsm>(C.getCalledOperand()); if (ia->getAsmString().empty()) return; unsup(&C); return; }
    CallInfo ci;
    const Value *cv = C.getCalledOperand()->stripPointerCasts();
    const Function *cf = dyn_cast<Function>(cv);
    if (!cf) if (auto *al = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<Function>(al->getAliaseeObject());
    if (cf) ci.callee = m.fmap[cf]; else ci.indirect = op(C.getCalledOperand());
    for (unsigned i = 0; i < C.arg_size(); i++) {
      const Value *a = C.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      std::vector<Leaf> ls; if (!flatten(a->getType(), 0, ls)) { unsup(&C); return; }
      int32_t s = op(a);
      if (C.isByValArgument(i)) ci.byval.push_back({(int)ci.args.size(), m.DL->getTypeAllocSize(C.getParamByValType(i))});
      for (unsigned k = 0; k < ls.size(); k++) { ci.args.push_back(at(s, k)); ci.argTy.push_back(ls[k]); }
    }
    ci.nret = nleaves(C.getType());
    if (auto *inv = dyn_cast<InvokeInst>(&C)) ci.normal = newEdge(inv->getParent(), inv->getNormalDest());
    if (cf && cf->isIntrinsic()) {
      auto *ii = cast<IntrinsicInst>(&C);
      if (C.getType()->isVectorTy()) { // lane-wise math intrinsics
        unsigned n = cast<FixedVectorType>(C.getType())->getNumElements(); unsigned na = ci.args.size() / n;
        Type *et = cast<FixedVectorType>(C.getType())->getElementType();
        Function *decl = Intrinsic::getDeclaration(m.M, ii->getIntrinsicID(), {et});
        DFunc *df; auto it = m.fmap.find(decl);
        if (it == m.fmap.end()) { auto d = std::make_unique<DFunc>(); d->F = decl; d->name = decl->getName().str(); d->idx = 65535; d->hasBody = false; auto k = m.intrinNames.find(d->name); if (k != m.intrinNames.end()) d->intrin = k->second; df = d.get(); m.fmap[decl] = df; m.funcs.push_back(std::move(d)); } else df = it->second;
        for (unsigned k = 0; k < n; k++) {
          CallInfo c2; c2.callee = df; c2.nret = 1;
          for (unsigned j = 0; j < na; j++) { c2.args.push_back(ci.args[j * n + k]); c2.argTy.push_back(ci.argTy[j * n + k]); }
          f->calls.push_back(c2);
          auto &d = add(O_CALL, &C); d.aux = f->calls.size() - 1; d.dst = slot[&C] + k; d.n = 1;
        }
        return;
      }
    }
    f->calls.push_back(ci);
    auto &d = add(O_CALL, &C); d.aux = f->calls.size() - 1; d.dst = C.getType()->isVoidTy() ? -1 : slot[&C]; d.n = ci.nret;
  }
  void inst(const Instruction &I) {
    Type *t = I.getType();
    switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Call: case Instruction::Invoke: return callInst(cast<CallBase>(I));
    case Instruction::Ret: {
      auto &r = cast<ReturnInst>(I); auto &d = add(O_RET, &I); d.n = 0;
      if (r.getReturnValue()) { int32_t s = op(r.getReturnValue()); f->code.back().a = s; f->code.back().n = nleaves(r.getReturnValue()->getType()); }
      return;
    }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) { int e = newEdge(I.getParent(), b.getSuccessor(0)); auto &d = add(O_BR, &I); d.a = e; }
      else { int32_t c = op(b.getCondition()); int e0 = newEdge(I.getParent(), b.getSuccessor(0)), e1 = newEdge(I.getParent(), b.getSuccessor(1)); auto &d = add(O_CBR, &I); d.a = c; d.b = e0; d.c = e1; }
      return;
    }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(I); SwitchInfo si;
      for (auto &c : s.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), newEdge(I.getParent(), c.getCaseSuccessor())});
      si.def = newEdge(I.getParent(), s.getDefaultDest());
      f->switches.push_back(si);
      int32_t c = op(s.getCondition());
      auto &d = add(O_SWITCH, &I); d.a = c; d.aux = f->switches.size() - 1; d.w = s.getCondition()->getType()->getIntegerBitWidth();
      return;
    }
    case Instruction::Unreachable: case Instruction::Resume: add(O_UNREACH, &I); return;
    case Instruction::LandingPad: return;
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(I); int32_t n = op(a.getArraySize());
      auto &d = add(O_ALLOCA, &I); d.dst = slot[&I]; d.a = n; d.n = m.DL->getTypeAllocSize(a.getAllocatedType()); d.aux = a.getAlign().value(); return;
    }
    case Instruction::Load: {
      std::vector<Leaf> ls; if (!flatten(t, 0, ls)) { unsup(&I); return; }
      int32_t p = op(I.getOperand(0));
      for (unsigned k = 0; k < ls.size(); k++) { auto &d = add(O_LOAD, &I); d.dst = slot[&I] + k; d.a = p; d.n = ls[k].off; d.ty = ls[k].t.ty; d.w = ls[k].t.w; d.bytes = ls[k].t.bytes; }
      return;
    }
    case Instruction::Store: {
      std::vector<Leaf> ls; if (!flatten(I.getOperand(0)->getType(), 0, ls)) { unsup(&I); return; }
      int32_t v = op(I.getOperand(0)), p = op(I.getOperand(1));
      for (unsigned k = 0; k < ls.size(); k++) { auto &d = add(O_STORE, &I); d.b = at(v, k); d.a = p; d.n = ls[k].off; d.ty = ls[k].t.ty; d.w = ls[k].t.w; d.bytes = ls[k].t.bytes; }
      return;
    }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(I);
      if (t->isVectorTy()) { unsup(&I); return; }
      GepInfo gi; gi.off = 0;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) gi.off += m.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
        else {
          int64_t sz = m.DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) gi.off += ci->getSExtValue() * sz;
          else { gi.terms.push_back({op(idx), sz}); gi.ws.push_back(idx->getType()->getIntegerBitWidth()); }
        }
      }
      f->geps.push_back(gi);
      int32_t p = op(g.getPointerOperand());
      auto &d = add(O_GEP, &I); d.dst = slot[&I]; d.a = p; d.aux = f->geps.size() - 1; return;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto &c = cast<CmpInst>(I); std::vector<Leaf> ls; if (!flatten(I.getOperand(0)->getType(), 0, ls)) { unsup(&I); return; }
      int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
      for (unsigned k = 0; k < ls.size(); k++) { auto &d = add(isa<ICmpInst>(I) ? O_ICMP : O_FCMP, &I); d.sub = c.getPredicate(); d.dst = slot[&I] + k; d.a = at(a, k); d.b = at(b, k); d.ty = ls[k].t.ty; d.w = ls[k].t.w; }
      return;
    }
    case Instruction::Select: {
      std::vector<Leaf> ls; if (!flatten(t, 0, ls)) { unsup(&I); return; }
      bool vc = I.getOperand(0)->getType()->isVectorTy();
      int32_t c = op(I.getOperand(0)), a = op(I.getOperand(1)), b = op(I.getOperand(2));
      for (unsigned k = 0; k < ls.size(); k++) { auto &d = add(O_SELECT, &I); d.dst = slot[&I] + k; d.a = vc ? at(c, k) : c; d.b = at(a, k); d.c = at(b, k); d.ty = ls[k].t.ty; d.w = ls[k].t.w; d.flag = t->isPointerTy(); }
      return;
    }
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I); int32_t s = op(e.getAggregateOperand());
      unsigned skip = leafIndex(e.getAggregateOperand()->getType(), e.getIndices()), n = nleaves(t);
      for (unsigned k = 0; k < n; k++) { auto &d = add(O_COPY, &I); d.dst = slot[&I] + k; d.a = at(s, skip + k); }
      return;
    }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I); int32_t s = op(e.getAggregateOperand()), v = op(e.getInsertedValueOperand());
      unsigned skip = leafIndex(t, e.getIndices()), n = nleaves(e.getInsertedValueOperand()->getType()), tot = nleaves(t);
      for (unsigned k = 0; k < tot; k++) { auto &d = add(O_COPY, &I); d.dst = slot[&I] + k; d.a = (k >= skip && k < skip + n) ? at(v, k - skip) : at(s, k); }
      return;
    }
    case Instruction::ExtractElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsup(&I); return; }
      int32_t s = op(I.getOperand(0)); auto &d = add(O_COPY, &I); d.dst = slot[&I]; d.a = at(s, ci->getZExtValue()); return;
    }
    case Instruction::InsertElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup(&I); return; }
      int32_t s = op(I.getOperand(0)), v = op(I.getOperand(1)); unsigned n = nleaves(t);
      for (unsigned k = 0; k < n; k++) { auto &d = add(O_COPY, &I); d.dst = slot[&I] + k; d.a = k == ci->getZExtValue() ? v : at(s, k); }
      return;
    }
    case Instruction::ShuffleVector: {
      auto &sv = cast<ShuffleVectorInst>(I); unsigned n = nleaves(sv.getOperand(0)->getType());
      int32_t a = op(sv.getOperand(0)), b = op(sv.getOperand(1));
      for (unsigned k = 0; k < sv.getShuffleMask().size(); k++) { int mk = sv.getShuffleMask()[k]; auto &d = add(O_COPY, &I); d.dst = slot[&I] + k; d.a = mk < 0 ? at(a, 0) : mk < (int)n ? at(a, mk) : at(b, mk - n); }
      return;
    }
    case Instruction::FNeg: { lanes(I, O_FNEG, 0); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: lanes(I, O_BINF, I.getOpcode()); return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: lanes(I, O_BINI, I.getOpcode()); return;
    case Instruction::ZExt: casts(I, O_ZEXT); return;
    case Instruction::SExt: casts(I, O_SEXT); return;
    case Instruction::Trunc: casts(I, O_TRUNCI); return;
    case Instruction::FPToSI: casts(I, O_FPTOSI); return;
    case Instruction::FPToUI: casts(I, O_FPTOUI); return;
    case Instruction::SIToFP: casts(I, O_SITOFP); return;
    case Instruction::UIToFP: casts(I, O_UITOFP); return;
    case Instruction::FPExt: casts(I, O_FPEXT); return;
    case Instruction::FPTrunc: casts(I, O_FPTRUNC); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
      if (w != 64) { unsup(&I); return; }
      int32_t a = op(I.getOperand(0)); auto &d = add(O_COPY, &I); d.dst = slot[&I]; d.a = a; return;
    }
    case Instruction::Freeze: { unsigned n = nleaves(t); int32_t a = op(I.getOperand(0)); for (unsigned k = 0; k < n; k++) { auto &d = add(O_COPY, &I); d.dst = slot[&I] + k; d.a = at(a, k); } return; }
    case Instruction::BitCast: {
      std::vector<Leaf> s, d; if (!flatten(I.getOperand(0)->getType(), 0, s) || !flatten(t, 0, d)) { unsup(&I); return; }
      int32_t a = op(I.getOperand(0));
      if (s.size() == d.size()) {
        for (unsigned k = 0; k < s.size(); k++) {
          Op o = s[k].t.ty == d[k].t.ty ? O_COPY : s[k].t.ty == T_BV ? O_I2F : O_F2I;
          auto &x = add(o, &I); x.dst = slot[&I] + k; x.a = at(a, k); x.ty = d[k].t.ty; x.w = d[k].t.w; x.ty2 = s[k].t.ty; x.w2 = s[k].t.w;
        }
        return;
      }
      // vector <-> wider scalar: go through a generic reassembly
      { auto &x = add(O_COPY, &I); x.op = O_I2F; x.flag = 1; x.dst = slot[&I]; x.a = a; x.n = s.size(); x.aux = d.size(); x.ty = d[0].t.ty; x.w = d[0].t.w; x.ty2 = s[0].t.ty; x.w2 = s[0].t.w; }
      return;
    }
    case Instruction::AtomicRMW: {
      auto &r = cast<AtomicRMWInst>(I); ScalarTy st = scalarOf(t); int32_t a = op(r.getPointerOperand()), b = op(r.getValOperand());
      auto &d = add(O_RMW, &I); d.dst = slot[&I]; d.a = a; d.b = b; d.sub = r.getOperation(); d.ty = st.ty; d.w = st.w; d.bytes = st.bytes; return;
    }
    case Instruction::AtomicCmpXchg: {
      auto &r = cast<AtomicCmpXchgInst>(I); ScalarTy st = scalarOf(r.getCompareOperand()->getType());
      int32_t a = op(r.getPointerOperand()), b = op(r.getCompareOperand()), c = op(r.getNewValOperand());
      auto &d = add(O_CMPXCHG, &I); d.dst = slot[&I]; d.a = a; d.b = b; d.c = c; d.ty = st.ty; d.w = st.w; d.bytes = st.bytes; return;
    }
    case Instruction::Fence: return;
    default: unsup(&I); return;
    }
  }
  static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
    unsigned skip = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) skip += nleaves(st->getElementType(k)); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); skip += i * nleaves(at->getElementType()); t = at->getElementType(); }
    }
    return skip;
  }
  void lanes(const Instruction &I, Op o, unsigned sub) {
    std::vector<Leaf> ls; if (!flatten(I.getType(), 0, ls)) { unsup(&I); return; }
    int32_t a = op(I.getOperand(0)), b = I.getNumOperands() > 1 ? op(I.getOperand(1)) : 0;
    for (unsigned k = 0; k < ls.size(); k++) { auto &d = add(o, &I); d.sub = sub; d.dst = slot[&I] + k; d.a = at(a, k); d.b = at(b, k); d.ty = ls[k].t.ty; d.w = ls[k].t.w; }
  }
  void casts(const Instruction &I, Op o) {
    std::vector<Leaf> s, d; if (!flatten(I.getOperand(0)->getType(), 0, s) || !flatten(I.getType(), 0, d)) { unsup(&I); return; }
    int32_t a = op(I.getOperand(0));
    for (unsigned k = 0; k < s.size(); k++) { auto &x = add(o, &I); x.dst = slot[&I] + k; x.a = at(a, k); x.ty = d[k].t.ty; x.w = d[k].t.w; x.ty2 = s[k].t.ty; x.w2 = s[k].t.w; }
  }
};
void Machine::decode(DFunc *f) { Decoder d(*this, f); d.run(); }
