// ksym: symbolic executor for LLVM IR (clang 18 bitcode) over the z3 solver.
#include "mem.h"
#include "solver.h"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ decoded IR
struct Val { Expr *e = nullptr; uint64_t c = 0; };

enum DOp : uint16_t {
  D_BIN, D_FREM, D_ICMP, D_FCMP, D_SELECT, D_TRUNC, D_ZEXT, D_SEXT, D_UN, D_GEP, D_LOAD, D_STORE, D_ALLOCA,
  D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_LPAD, D_RESUME, D_UNREACHABLE, D_COPY, D_CONCAT, D_EXTRACT,
  D_RMW, D_CMPXCHG, D_UNSUPPORTED, D_NOP
};

struct DFunc;
struct DInst {
  uint16_t op = D_NOP, sub = 0;
  uint16_t w = 0, w2 = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  int64_t imm = 0;
  uint32_t x = 0, y = 0;
  const Instruction *I = nullptr;
};
struct Edge { uint32_t target = 0; std::vector<std::pair<int32_t, int32_t>> copies; BasicBlock *from, *to; };
struct GepIdx { int32_t op; uint16_t w; int64_t scale; };
struct Clause { bool filter; std::vector<uint64_t> tis; };
struct LPad { bool cleanup; std::vector<Clause> clauses; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct CallInfo {
  const Function *callee = nullptr;
  DFunc *df = nullptr;
  int builtin = -1;
  int32_t calleeOp = 0;
  std::vector<int32_t> args;       // flattened
  std::vector<uint16_t> argW;
  std::vector<std::pair<int, uint32_t>> byval;  // arg slot, size
  bool isInvoke = false;
  uint32_t normalEdge = 0, unwindEdge = 0;
  int lpad = -1;
  int retSlots = 0;
  std::vector<uint16_t> retW;
};
struct DFunc {
  const Function *F = nullptr;
  std::string name;
  bool decoded = false, executed = false;
  int builtin = -1;
  int nslots = 0, nargs = 0;
  std::vector<DInst> code;
  std::vector<Edge> edges;
  std::vector<GepIdx> geps;
  std::vector<CallInfo> calls;
  std::vector<SwitchInfo> switches;
  std::vector<LPad> lpads;
  std::vector<Val> consts;
  std::map<const Constant *, int> constBase;
  DenseMap<const Value *, int> slotOf;
  DenseMap<const BasicBlock *, uint32_t> bbPc;
  uint64_t execInst = 0;
};

// ------------------------------------------------------------------ states
struct Frame {
  DFunc *f;
  uint32_t pc;
  uint32_t base;
  std::vector<uint64_t> allocas;
  uint64_t va = 0;   // further arguments of a variadic function, 8 bytes each
};
struct ExcInfo { uint64_t addr, tinfo, dtor; int handlers; bool rethrown; };
struct Note { uint32_t tag; Val v; uint16_t w; bool isF; };

struct State {
  Memory mem;
  std::vector<Frame> frames;
  std::vector<Val> regs;
  std::vector<Expr *> cs;
  Model model;
  std::vector<std::pair<uint32_t, Expr *>> inputs;  // name id, var
  std::map<std::string, int> nameCount;
  std::vector<Note> notes;
  std::set<uint32_t> covers;
  std::vector<ExcInfo> excs;
  std::vector<uint64_t> caught;
  uint64_t curExc = 0, curSel = 0;
  int64_t heapLive = 0;
  uint64_t steps = 0;
  uint32_t undefs = 0, forks = 0;
  State() {}
  State(const State &) = default;
};

struct PathEnd { int kind; };  // 0 complete, 1 infeasible/assume, 2 violation, 3 exit
struct EngineError { std::string what; };

struct Shared {
  std::atomic<int> active, viol, err;
  std::atomic<uint64_t> paths;
};

struct Violation {
  std::string kind, msg, where;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::string trace;
  bool undefDependent = false;
};
struct Sample {
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<std::pair<std::string, std::pair<bool, uint64_t>>> notes;
  std::vector<std::string> covers;
  bool undef = false;
};

// ------------------------------------------------------------------ globals
static LLVMContext *LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::vector<DFunc *> funcs;
static std::unordered_map<const Function *, DFunc *> dfOf;
static uint64_t tiBaseVt = 0, tiSiVt = 0, tiVmiVt = 0, tiPtrVt = 0;
static Solver S;
static Shared *SH;
static std::string outDir;
static int maxProc = 1;
static double deadline = 0, lastDonate = 0;
static uint64_t maxSteps = 200000000ULL;
static unsigned maxDepth = 3000;
static std::vector<State *> work;
static std::vector<std::string> strTab;
static std::unordered_map<std::string, uint32_t> strIdx;
static uint32_t intern(const std::string &s) {
  auto it = strIdx.find(s);
  if (it != strIdx.end()) return it->second;
  strTab.push_back(s);
  return strIdx[s] = strTab.size() - 1;
}
static std::map<std::string, Expr *> varIntern;

// per-process results
static uint64_t nInst = 0, nPaths = 0, nInfeasible = 0, nForks = 0, nChecks = 0, nChecksSolver = 0, nBranchSym = 0, nUnknown = 0, nStates = 0;
static std::map<std::string, uint64_t> covers, checkMsgs;
static std::vector<Violation> viols;
static std::map<std::string, int> violKey;
static std::vector<std::string> knownMsgs;
static std::vector<Sample> samples;
static std::vector<std::string> errors;
static std::vector<std::string> unknowns;
static bool truncated = false;
static int maxSamples = 24;

// ------------------------------------------------------------------ decode
static int nSlots(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *ST = dyn_cast<StructType>(T)) { int n = 0; for (auto *E : ST->elements()) n += nSlots(E); return n; }
  if (auto *AT = dyn_cast<ArrayType>(T)) return nSlots(AT->getElementType()) * AT->getNumElements();
  if (auto *VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements();
  return 1;
}
static int widthOf(Type *T) {
  if (auto *IT = dyn_cast<IntegerType>(T)) { if (IT->getBitWidth() > 128) throw EngineError{"integer wider than 128 bits"}; return IT->getBitWidth(); }
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  std::string s; raw_string_ostream os(s); T->print(os);
  throw EngineError{"unsupported type " + os.str()};
}
struct Leaf { Type *T; uint64_t off; };
static void leaves(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); ++i) leaves(ST->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); ++i) leaves(AT->getElementType(), off + i * es, out);
  } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    uint64_t es = DL->getTypeStoreSize(VT->getElementType());
    for (uint64_t i = 0; i < VT->getNumElements(); ++i) leaves(VT->getElementType(), off + i * es, out);
  } else if (!T->isVoidTy()) out.push_back({T, off});
}

static Val mkVal(Expr *e) {
  Val v;
  if (e->op == O_CONST && e->width <= 64) v.c = (uint64_t)e->c; else v.e = e;
  return v;
}
static Expr *ex(const Val &v, int w) { return v.e ? v.e : P.cst(v.c, w); }
static Val cv(u128 c, int w) {
  c &= maskw(w);
  if (w <= 64) { Val v; v.c = (uint64_t)c; return v; }
  Val v; v.e = P.cst(c, w); return v;
}

static uint64_t addrOf(const GlobalValue *G) {
  if (auto *GA = dyn_cast<GlobalAlias>(G)) return addrOf(cast<GlobalValue>(GA->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(G);
  if (it == gaddr.end()) throw EngineError{"no address for global " + G->getName().str()};
  return it->second;
}
static void constVals(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) {
  std::vector<Val> v;
  constVals(C, v);
  if (v.size() != 1) throw EngineError{"aggregate constant where scalar expected"};
  return v[0];
}
static u128 apToU(const APInt &A) {
  u128 v = A.extractBitsAsZExtValue(std::min(64u, A.getBitWidth()), 0);
  if (A.getBitWidth() > 64) v |= (u128)A.extractBitsAsZExtValue(A.getBitWidth() - 64, 64) << 64;
  return v;
}
static void constVals(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
    std::vector<Leaf> ls; leaves(T, 0, ls);
    for (auto &l : ls) out.push_back(cv(0, widthOf(l.T)));
    return;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) { out.push_back(cv(apToU(CI->getValue()), CI->getBitWidth())); return; }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back(cv(apToU(CF->getValueAPF().bitcastToAPInt()), widthOf(T))); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (auto &op : CA->operands()) constVals(cast<Constant>(op), out); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) constVals(CD->getElementAsConstant(i), out); return; }
  if (auto *GV = dyn_cast<GlobalValue>(C)) { out.push_back(cv(addrOf(GV), 64)); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = constScalar(CE->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) break;
        out.push_back(cv(b.c + off.getSExtValue(), 64));
        return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
        Val b = constScalar(CE->getOperand(0));
        out.push_back(cv(b.c, widthOf(T)));
        return;
      }
      case Instruction::Add: case Instruction::Sub: {
        Val a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1));
        out.push_back(cv(CE->getOpcode() == Instruction::Add ? a.c + b.c : a.c - b.c, widthOf(T)));
        return;
      }
      case Instruction::ICmp: {
        Val a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1));
        unsigned p = CE->getPredicate();
        if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) { out.push_back(cv((a.c == b.c) == (p == CmpInst::ICMP_EQ), 1)); return; }
        break;
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  throw EngineError{"unsupported constant " + os.str()};
}

static std::map<std::string, int> builtinIdx;
static DFunc *getDF(const Function *F);

struct Decoder {
  DFunc &D;
  explicit Decoder(DFunc &d) : D(d) {}
  int32_t opnd(const Value *V, int k = 0) {
    if (auto *C = dyn_cast<Constant>(V)) {
      auto it = D.constBase.find(C);
      int b;
      if (it == D.constBase.end()) {
        b = D.consts.size();
        constVals(C, D.consts);
        if (nSlots(C->getType()) == 0) D.consts.push_back(Val());
        D.constBase[C] = b;
      } else b = it->second;
      return ~(b + k);
    }
    auto it = D.slotOf.find(V);
    if (it == D.slotOf.end()) throw EngineError{"operand without slot in " + D.name};
    return it->second + k;
  }
  int32_t newSlot() { return D.nslots++; }
  DInst &emit(uint16_t op, const Instruction *I) { D.code.emplace_back(); D.code.back().op = op; D.code.back().I = I; return D.code.back(); }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
    D.edges.emplace_back();
    Edge &e = D.edges.back();
    e.from = const_cast<BasicBlock *>(from); e.to = const_cast<BasicBlock *>(to);
    return D.edges.size() - 1;
  }
  static int slotIndex(Type *T, ArrayRef<unsigned> idx) {
    int n = 0;
    for (unsigned i : idx) {
      if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) n += nSlots(ST->getElementType(j)); T = ST->getElementType(i); }
      else if (auto *AT = dyn_cast<ArrayType>(T)) { n += i * nSlots(AT->getElementType()); T = AT->getElementType(); }
    }
    return n;
  }
  void decode() {
    const Function *F = D.F;
    for (auto &A : F->args()) { D.slotOf[&A] = D.nslots; D.nslots += nSlots(A.getType()); }
    D.nargs = D.nslots;
    for (auto &B : *F)
      for (auto &I : B) { D.slotOf[&I] = D.nslots; D.nslots += nSlots(I.getType()); }
    for (auto &B : *F) {
      D.bbPc[&B] = D.code.size();
      for (auto &I : B) {
        if (isa<PHINode>(I)) continue;
        size_t c0 = D.code.size();
        try { inst(I); }
        catch (EngineError &e) { D.code.resize(c0); auto &d = emit(D_UNSUPPORTED, &I); d.x = intern(e.what); }
      }
    }
    for (auto &e : D.edges) {
      e.target = D.bbPc[e.to];
      for (auto &I : *e.to) {
        auto *PN = dyn_cast<PHINode>(&I);
        if (!PN) break;
        const Value *in = PN->getIncomingValueForBlock(e.from);
        int n = nSlots(PN->getType());
        int d = D.slotOf[PN];
        if (isa<UndefValue>(in)) { for (int k = 0; k < n; ++k) e.copies.push_back({opnd(in, k), d + k}); continue; }
        for (int k = 0; k < n; ++k) e.copies.push_back({opnd(in, k), d + k});
      }
    }
    D.decoded = true;
  }
  void inst(const Instruction &I) {
    Type *T = I.getType();
    int n = nSlots(T);
    int dst = D.slotOf[&I];
    auto elemW = [&](Type *t) { return widthOf(t->getScalarType()); };
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      int op;
      switch (BO->getOpcode()) {
        case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break;
        case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break;
        case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break;
        case Instruction::SRem: op = O_SREM; break; case Instruction::And: op = O_AND; break;
        case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
        case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break;
        case Instruction::AShr: op = O_ASHR; break; case Instruction::FAdd: op = O_FADD; break;
        case Instruction::FSub: op = O_FSUB; break; case Instruction::FMul: op = O_FMUL; break;
        case Instruction::FDiv: op = O_FDIV; break;
        case Instruction::FRem: op = -1; break;
        default: throw EngineError{"binary op"};
      }
      for (int k = 0; k < n; ++k) {
        auto &d = emit(op < 0 ? D_FREM : D_BIN, &I);
        d.sub = op < 0 ? 0 : op; d.w = d.w2 = elemW(T); d.dst = dst + k;
        int32_t a = opnd(BO->getOperand(0), k), b = opnd(BO->getOperand(1), k);
        D.code.back().a = a; D.code.back().b = b;
      }
      return;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg:
        for (int k = 0; k < n; ++k) { int32_t a = opnd(I.getOperand(0), k); auto &d = emit(D_UN, &I); d.sub = O_FNEG; d.w = d.w2 = elemW(T); d.dst = dst + k; d.a = a; }
        return;
      case Instruction::ICmp: case Instruction::FCmp: {
        auto *C = cast<CmpInst>(&I);
        for (int k = 0; k < n; ++k) {
          int32_t a = opnd(C->getOperand(0), k), b = opnd(C->getOperand(1), k);
          auto &d = emit(I.getOpcode() == Instruction::ICmp ? D_ICMP : D_FCMP, &I);
          d.sub = C->getPredicate(); d.w = elemW(C->getOperand(0)->getType()); d.w2 = 1; d.dst = dst + k; d.a = a; d.b = b;
        }
        return;
      }
      case Instruction::Select: {
        bool vecC = I.getOperand(0)->getType()->isVectorTy();
        std::vector<Leaf> ls; leaves(T, 0, ls);
        for (int k = 0; k < n; ++k) {
          int32_t a = opnd(I.getOperand(0), vecC ? k : 0), b = opnd(I.getOperand(1), k), c = opnd(I.getOperand(2), k);
          auto &d = emit(D_SELECT, &I);
          d.w = d.w2 = widthOf(ls[k].T); d.dst = dst + k; d.a = a; d.b = b; d.c = c;
        }
        return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        int w = elemW(I.getOperand(0)->getType()), w2 = elemW(T);
        uint16_t op = I.getOpcode() == Instruction::SExt ? D_SEXT : w2 < w ? D_TRUNC : D_ZEXT;
        for (int k = 0; k < n; ++k) { int32_t a = opnd(I.getOperand(0), k); auto &d = emit(op, &I); d.w = w; d.w2 = w2; d.dst = dst + k; d.a = a; }
        return;
      }
      case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        int op = I.getOpcode() == Instruction::FPExt ? O_FPEXT : I.getOpcode() == Instruction::FPTrunc ? O_FPTRUNC : I.getOpcode() == Instruction::SIToFP ? O_SITOFP
                 : I.getOpcode() == Instruction::UIToFP ? O_UITOFP : I.getOpcode() == Instruction::FPToSI ? O_FPTOSI : O_FPTOUI;
        for (int k = 0; k < n; ++k) {
          int32_t a = opnd(I.getOperand(0), k);
          auto &d = emit(D_UN, &I); d.sub = op; d.w = elemW(I.getOperand(0)->getType()); d.w2 = elemW(T); d.dst = dst + k; d.a = a;
        }
        return;
      }
      case Instruction::BitCast: {
        Type *S0 = I.getOperand(0)->getType();
        int m = nSlots(S0);
        if (m == n) { for (int k = 0; k < n; ++k) { int32_t a = opnd(I.getOperand(0), k); auto &d = emit(D_COPY, &I); d.dst = dst + k; d.a = a; } return; }
        int ws = elemW(S0), wd = elemW(T);
        if (m * ws > 128) throw EngineError{"wide bitcast"};
        // concatenate source elements, then extract destination elements
        int32_t cur = opnd(I.getOperand(0), 0);
        int cw = ws;
        for (int k = 1; k < m; ++k) {
          int32_t hi = opnd(I.getOperand(0), k), t = newSlot();
          auto &d = emit(D_CONCAT, &I); d.a = hi; d.b = cur; d.w = ws; d.w2 = cw; d.dst = t;
          cur = t; cw += ws;
        }
        for (int k = 0; k < n; ++k) { auto &d = emit(D_EXTRACT, &I); d.a = cur; d.w = cw; d.w2 = wd; d.x = k * wd; d.dst = dst + k; }
        return;
      }
      case Instruction::Freeze:
        for (int k = 0; k < n; ++k) { int32_t a = opnd(I.getOperand(0), k); auto &d = emit(D_COPY, &I); d.dst = dst + k; d.a = a; }
        return;
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(&I);
        if (T->isVectorTy()) throw EngineError{"vector gep"};
        int64_t off = 0;
        uint32_t x = D.geps.size();
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value *ix = it.getOperand();
          if (auto *ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * sc;
          else { int32_t o = opnd(ix); D.geps.push_back({o, (uint16_t)widthOf(ix->getType()), sc}); }
        }
        int32_t a = opnd(G->getPointerOperand());
        auto &d = emit(D_GEP, &I); d.a = a; d.imm = off; d.x = x; d.y = D.geps.size(); d.dst = dst; d.w = d.w2 = 64;
        return;
      }
      case Instruction::Load: {
        std::vector<Leaf> ls; leaves(T, 0, ls);
        if (T->isVectorTy() && elemW(T) % 8) throw EngineError{"sub-byte vector load"};
        int32_t a = opnd(I.getOperand(0));
        for (size_t k = 0; k < ls.size(); ++k) { auto &d = emit(D_LOAD, &I); d.a = a; d.imm = ls[k].off; d.w = d.w2 = widthOf(ls[k].T); d.dst = dst + k; }
        return;
      }
      case Instruction::Store: {
        Type *VT = I.getOperand(0)->getType();
        std::vector<Leaf> ls; leaves(VT, 0, ls);
        if (VT->isVectorTy() && elemW(VT) % 8) throw EngineError{"sub-byte vector store"};
        int32_t a = opnd(I.getOperand(1));
        for (size_t k = 0; k < ls.size(); ++k) { int32_t b = opnd(I.getOperand(0), k); auto &d = emit(D_STORE, &I); d.a = a; d.b = b; d.imm = ls[k].off; d.w = widthOf(ls[k].T); }
        return;
      }
      case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(&I);
        int32_t a = opnd(A->getArraySize());
        auto &d = emit(D_ALLOCA, &I); d.a = a; d.w = widthOf(A->getArraySize()->getType()); d.imm = DL->getTypeAllocSize(A->getAllocatedType()); d.dst = dst;
        return;
      }
      case Instruction::Br: {
        auto *B = cast<BranchInst>(&I);
        if (B->isUnconditional()) { uint32_t e = edge(I.getParent(), B->getSuccessor(0)); emit(D_BR, &I).x = e; return; }
        int32_t a = opnd(B->getCondition());
        uint32_t e1 = edge(I.getParent(), B->getSuccessor(0)), e2 = edge(I.getParent(), B->getSuccessor(1));
        auto &d = emit(D_CBR, &I); d.a = a; d.x = e1; d.y = e2; d.w = 1;
        return;
      }
      case Instruction::Switch: {
        auto *W = cast<SwitchInst>(&I);
        SwitchInfo si;
        std::map<const BasicBlock *, uint32_t> em;
        auto E = [&](const BasicBlock *b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = edge(I.getParent(), b); };
        for (auto &c : W->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), E(c.getCaseSuccessor())});
        si.def = E(W->getDefaultDest());
        int32_t a = opnd(W->getCondition());
        D.switches.push_back(si);
        auto &d = emit(D_SWITCH, &I); d.a = a; d.w = widthOf(W->getCondition()->getType()); d.x = D.switches.size() - 1;
        return;
      }
      case Instruction::Ret: {
        auto *R = cast<ReturnInst>(&I);
        int m = R->getReturnValue() ? nSlots(R->getReturnValue()->getType()) : 0;
        uint32_t x = D.geps.size();
        for (int k = 0; k < m; ++k) { int32_t o = opnd(R->getReturnValue(), k); D.geps.push_back({o, 0, 0}); }
        auto &d = emit(D_RET, &I); d.x = x; d.y = x + m;
        return;
      }
      case Instruction::Unreachable: emit(D_UNREACHABLE, &I); return;
      case Instruction::Fence: emit(D_NOP, &I); return;
      case Instruction::AtomicRMW: {
        auto *A = cast<AtomicRMWInst>(&I);
        int32_t a = opnd(A->getPointerOperand()), b = opnd(A->getValOperand());
        auto &d = emit(D_RMW, &I); d.a = a; d.b = b; d.w = widthOf(T); d.dst = dst;
        switch (A->getOperation()) { case AtomicRMWInst::Add: d.sub = O_ADD; break; case AtomicRMWInst::Sub: d.sub = O_SUB; break; case AtomicRMWInst::Xchg: d.sub = O_CONST; break; case AtomicRMWInst::Or: d.sub = O_OR; break; case AtomicRMWInst::And: d.sub = O_AND; break; default: throw EngineError{"atomicrmw op"}; }
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto *A = cast<AtomicCmpXchgInst>(&I);
        int32_t a = opnd(A->getPointerOperand()), b = opnd(A->getCompareOperand()), c = opnd(A->getNewValOperand());
        auto &d = emit(D_CMPXCHG, &I); d.a = a; d.b = b; d.c = c; d.w = widthOf(A->getNewValOperand()->getType()); d.dst = dst;
        return;
      }
      case Instruction::ExtractValue: {
        auto *E = cast<ExtractValueInst>(&I);
        int si = slotIndex(E->getAggregateOperand()->getType(), E->getIndices());
        for (int k = 0; k < n; ++k) { int32_t a = opnd(E->getAggregateOperand(), si + k); auto &d = emit(D_COPY, &I); d.a = a; d.dst = dst + k; }
        return;
      }
      case Instruction::InsertValue: {
        auto *E = cast<InsertValueInst>(&I);
        int si = slotIndex(T, E->getIndices());
        int m = nSlots(E->getInsertedValueOperand()->getType());
        for (int k = 0; k < n; ++k) {
          int32_t a = (k >= si && k < si + m) ? opnd(E->getInsertedValueOperand(), k - si) : opnd(E->getAggregateOperand(), k);
          auto &d = emit(D_COPY, &I); d.a = a; d.dst = dst + k;
        }
        return;
      }
      case Instruction::ExtractElement: {
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!CI) throw EngineError{"variable extractelement"};
        int32_t a = opnd(I.getOperand(0), CI->getZExtValue());
        auto &d = emit(D_COPY, &I); d.a = a; d.dst = dst;
        return;
      }
      case Instruction::InsertElement: {
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!CI) throw EngineError{"variable insertelement"};
        for (int k = 0; k < n; ++k) { int32_t a = k == (int)CI->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), k); auto &d = emit(D_COPY, &I); d.a = a; d.dst = dst + k; }
        return;
      }
      case Instruction::ShuffleVector: {
        auto *SV = cast<ShuffleVectorInst>(&I);
        int m = nSlots(SV->getOperand(0)->getType());
        for (int k = 0; k < n; ++k) {
          int mi = SV->getMaskValue(k);
          if (mi < 0) mi = 0;
          int32_t a = mi < m ? opnd(SV->getOperand(0), mi) : opnd(SV->getOperand(1), mi - m);
          auto &d = emit(D_COPY, &I); d.a = a; d.dst = dst + k;
        }
        return;
      }
      case Instruction::LandingPad: {
        auto *L = cast<LandingPadInst>(&I);
        (void)L;
        auto &d = emit(D_LPAD, &I); d.dst = dst;
        return;
      }
      case Instruction::Resume: { int32_t a = opnd(I.getOperand(0), 0); emit(D_RESUME, &I).a = a; return; }
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
      default: throw EngineError{std::string("unsupported instruction ") + I.getOpcodeName()};
    }
  }
  int lpadOf(const BasicBlock *B) {
    auto *L = B->getLandingPadInst();
    LPad lp;
    lp.cleanup = L->isCleanup();
    for (unsigned i = 0; i < L->getNumClauses(); ++i) {
      Clause c;
      c.filter = L->isFilter(i);
      if (c.filter) {
        auto *A = L->getClause(i);
        if (auto *CA = dyn_cast<ConstantArray>(A)) for (auto &o : CA->operands()) c.tis.push_back(constScalar(cast<Constant>(o)).c);
      } else c.tis.push_back(constScalar(L->getClause(i)).c);
      lp.clauses.push_back(c);
    }
    D.lpads.push_back(lp);
    return D.lpads.size() - 1;
  }
  void call(const CallBase &CB) {
    if (CB.isInlineAsm()) {
      auto *IA = cast<InlineAsm>(CB.getCalledOperand());
      if (IA->getAsmString().empty() && nSlots(CB.getType()) == 0) { emit(D_NOP, &CB); return; }
      throw EngineError{"inline asm"};
    }
    CallInfo ci;
    const Value *cal = CB.getCalledOperand()->stripPointerCasts();
    if (auto *GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliasee()->stripPointerCasts();
    const Function *F = dyn_cast<Function>(cal);
    int n = nSlots(CB.getType());
    int dst = D.slotOf[&CB];
    if (F && F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
        case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe:
          emit(D_NOP, &CB); return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::invariant_start: {
          if (F->getIntrinsicID() == Intrinsic::invariant_start) { emit(D_NOP, &CB); return; }
          int32_t a = opnd(CB.getArgOperand(0)); auto &d = emit(D_COPY, &CB); d.a = a; d.dst = dst; return;
        }
        default: break;
      }
      // element-wise vector intrinsics are expanded by calling the scalar form per lane
      std::string nm = F->getName().str();
      if (CB.getType()->isVectorTy()) throw EngineError{"vector intrinsic " + nm};
    }
    if (F) {
      ci.callee = F;
    } else ci.calleeOp = opnd(cal);
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
      const Value *A = CB.getArgOperand(i);
      if (A->getType()->isMetadataTy()) continue;
      std::vector<Leaf> ls; leaves(A->getType(), 0, ls);
      if (CB.isByValArgument(i)) ci.byval.push_back({(int)ci.args.size(), (uint32_t)DL->getTypeAllocSize(CB.getParamByValType(i))});
      for (size_t k = 0; k < ls.size(); ++k) { ci.args.push_back(opnd(A, k)); ci.argW.push_back(widthOf(ls[k].T)); }
    }
    std::vector<Leaf> rl; leaves(CB.getType(), 0, rl);
    for (auto &l : rl) ci.retW.push_back(widthOf(l.T));
    ci.retSlots = n;
    if (auto *II = dyn_cast<InvokeInst>(&CB)) {
      ci.isInvoke = true;
      ci.normalEdge = edge(CB.getParent(), II->getNormalDest());
      ci.unwindEdge = edge(CB.getParent(), II->getUnwindDest());
      ci.lpad = lpadOf(II->getUnwindDest());
    }
    D.calls.push_back(ci);
    auto &d = emit(D_CALL, &CB); d.x = D.calls.size() - 1; d.dst = dst;
  }
};

static DFunc *getDF(const Function *F) {
  auto it = dfOf.find(F);
  if (it != dfOf.end()) return it->second;
  auto *d = new DFunc();
  d->F = F;
  d->name = F->getName().str();
  std::string key = d->name;
  auto b = builtinIdx.find(key);
  if (b == builtinIdx.end() && F->isIntrinsic()) {
    // strip type suffixes: llvm.memcpy.p0.p0.i64 -> llvm.memcpy
    std::string base = Intrinsic::getBaseName(F->getIntrinsicID()).str();
    b = builtinIdx.find(base);
  }
  if (b != builtinIdx.end()) d->builtin = b->second;
  dfOf[F] = d;
  return d;
}

#include "exec.inc"

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return "\"" + o + "\"";
}
static std::string jinputs(const std::vector<std::pair<std::string, uint64_t>> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::string("[") + jesc(v[i].first) + ",\"" + std::to_string(v[i].second) + "\"]";
  return o + "]";
}

static void writeResult() {
  std::string fn = outDir + "/res." + std::to_string(getpid()) + ".json";
  FILE *f = fopen(fn.c_str(), "w");
  if (!f) { perror("result"); _exit(3); }
  fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"inst\":%llu,\"states\":%llu,\"checks\":%llu,\"checks_solver\":%llu,\"sym_branches\":%llu,\"unknown\":%llu,\"truncated\":%s,",
          (unsigned long long)nPaths, (unsigned long long)nInfeasible, (unsigned long long)nForks, (unsigned long long)nInst, (unsigned long long)nStates,
          (unsigned long long)nChecks, (unsigned long long)nChecksSolver, (unsigned long long)nBranchSym, (unsigned long long)nUnknown, truncated ? "true" : "false");
  fprintf(f, "\"queries\":%llu,\"solver_calls\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_time\":%.3f,\"max_query\":%.3f,\"cvc5\":%llu,\"abs_unsat\":%llu,",
          (unsigned long long)S.st.queries, (unsigned long long)S.st.solverCalls, (unsigned long long)S.st.cacheHits, (unsigned long long)S.st.sat, (unsigned long long)S.st.unsat, S.st.time, S.st.maxTime, (unsigned long long)S.st.cvc5, (unsigned long long)S.st.absUnsat);
  auto mapJ = [&](const char *n, std::map<std::string, uint64_t> &m) {
    fprintf(f, "\"%s\":{", n);
    bool first = true;
    for (auto &p : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},");
  };
  mapJ("covers", covers);
  mapJ("check_msgs", checkMsgs);
  fprintf(f, "\"violations\":[");
  for (size_t i = 0; i < viols.size(); ++i) {
    auto &v = viols[i];
    fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"trace\":%s,\"undef\":%s,\"inputs\":%s}", i ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.trace).c_str(), v.undefDependent ? "true" : "false", jinputs(v.inputs).c_str());
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) {
    auto &v = samples[i];
    fprintf(f, "%s{\"inputs\":%s,\"undef\":%s,\"notes\":[", i ? "," : "", jinputs(v.inputs).c_str(), v.undef ? "true" : "false");
    for (size_t j = 0; j < v.notes.size(); ++j) fprintf(f, "%s[%s,%d,\"%llu\"]", j ? "," : "", jesc(v.notes[j].first).c_str(), (int)v.notes[j].second.first, (unsigned long long)v.notes[j].second.second);
    fprintf(f, "],\"covers\":[");
    for (size_t j = 0; j < v.covers.size(); ++j) fprintf(f, "%s%s", j ? "," : "", jesc(v.covers[j]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "],\"errors\":[");
  for (size_t i = 0; i < errors.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(errors[i]).c_str());
  fprintf(f, "],\"unknowns\":[");
  for (size_t i = 0; i < unknowns.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(unknowns[i]).c_str());
  fprintf(f, "],\"functions\":[");
  bool first = true;
  for (auto &p : dfOf)
    if (p.second->executed) { fprintf(f, "%s[%s,%llu]", first ? "" : ",", jesc(llvm::demangle(p.second->name)).c_str(), (unsigned long long)p.second->execInst); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}

int main(int argc, char **argv) {
  std::string bc, entry;
  double budget = 300;
  S.timeoutMs = 60000;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") outDir = nx();
    else if (a == "--jobs") maxProc = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--known") knownMsgs.push_back(nx());
    else if (a == "--query-timeout") S.timeoutMs = atof(nx().c_str()) * 1000;
    else if (a == "--real") { S.mode = FP_REAL; realMode = true; }
    else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-depth") maxDepth = atoi(nx().c_str());
    else if (a == "--fp-table") fpTab = atoi(nx().c_str());
    else if (a == "--samples") maxSamples = atoi(nx().c_str());
    else if (a == "--dump") { S.dumpDir = nx(); S.dumpMax = 40; }
    else if (a == "--no-cvc5") S.useCvc5 = false;
    else if (a == "--param") { auto v = nx(); auto p = v.find('='); params[v.substr(0, p)] = strtoll(v.c_str() + p + 1, 0, 10); }
    else bc = a;
  }
  deadline = now() + budget;
  LC = new LLVMContext();
  SMDiagnostic err;
  M = parseIRFile(bc, err, *LC);
  if (!M) { err.print("ksym", errs()); return 3; }
  DL = &M->getDataLayout();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared();
  SH->active = 1; SH->viol = 0; SH->err = 0; SH->paths = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t root = getpid();
  int rc = 0;
  try {
    S.init();
    initBuiltins();
    State *s0 = new State();
    setupModule(*s0, entry);
    nStates = 1;
    work.push_back(s0);
    explore();
  } catch (EngineError &e) { errors.push_back(e.what); SH->err++; }
  catch (Unsupported &e) { errors.push_back("solver: " + e.what); SH->err++; }
  SH->active--;
  writeResult();
  if (getpid() != root) _exit(errors.empty() ? 0 : 2);
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 2)) { fprintf(stderr, "ksym: worker died (status %d)\n", st); rc = 3; }
  }
  if (SH->err) rc = rc ? rc : 2;
  return rc;
}
