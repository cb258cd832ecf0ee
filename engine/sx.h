#pragma once
#include "expr.h"
#include <atomic>
#include <cstdio>
#include <functional>
#include <semaphore.h>
#include <set>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>

struct V { uint64_t c; const Expr *e; };
struct ScalarTy { Ty ty; uint8_t w; uint8_t bytes; };
struct Leaf { ScalarTy t; uint64_t off; };

enum Op : uint16_t {
  O_NOP, O_BINI, O_BINF, O_FNEG, O_ICMP, O_FCMP, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_CALL, O_RET, O_BR, O_CBR, O_SWITCH, O_UNREACH, O_ZEXT, O_SEXT, O_TRUNCI,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_F2I, O_I2F, O_COPY,
  O_RMW, O_CMPXCHG, O_UNSUP,
};

struct DFunc;
struct DInst {
  Op op; uint8_t sub; uint8_t w; Ty ty; Ty ty2; uint8_t w2; uint8_t bytes; uint8_t flag;
  int32_t dst, a, b, c;
  int32_t aux; uint32_t n;
  const llvm::Instruction *I;
};
struct Edge { uint32_t pc; std::vector<std::pair<int32_t, int32_t>> mv; };
struct GepInfo { int64_t off; std::vector<std::pair<int32_t, int64_t>> terms; std::vector<uint8_t> ws; };
struct CallInfo {
  DFunc *callee = nullptr; int32_t indirect = 0;
  std::vector<int32_t> args; std::vector<Leaf> argTy; // flattened
  std::vector<std::pair<int, uint64_t>> byval; // flattened arg index, size
  int intrin = -1; int normal = -1; uint32_t nret = 0;
};
struct SwitchInfo { int def; std::vector<std::pair<uint64_t, int>> cases; };

typedef std::function<void(struct Machine &, V *args, int n, V *ret)> Intrin;

struct DFunc {
  const llvm::Function *F; std::string name; bool decoded = false; int idx; bool hasBody;
  uint64_t addr; int intrin = -1;
  std::vector<DInst> code; std::vector<V> consts; std::vector<Edge> edges; std::vector<GepInfo> geps;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches;
  uint32_t nslots = 0, nargs = 0, nret = 0; bool model = false;
};

struct Frame { DFunc *f; uint32_t pc; V *regs; int32_t retSlot; uint32_t nret; int32_t retEdge; size_t allocaMark; };
struct Thread { std::vector<Frame> fr; V *stk = nullptr; V *sp = nullptr; std::vector<uint64_t> allocas; int id = 0; bool done = false; uint64_t waitLock = 0; bool joining = false; std::set<uint64_t> locks; };

struct Shared {
  std::atomic<long> paths, pathsDone, pathsErr, pathsPruned, queries, sat, unsat, unknown, obligations, proved, trivially, failed, undecided, insts, forks, solverUs, live, stop, maxProc, timeouts, unsup, crashViol, replays;
  sem_t slots;
  std::atomic<unsigned char> fnHit[1 << 16];
  std::atomic<int> labelViol[4096];
  std::atomic<int> labelProved[4096];
};
