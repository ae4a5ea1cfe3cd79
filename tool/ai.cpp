// Whole-program abstract interpreter over LLVM IR.
//   tvet prep in.bc out.bc               canonicalise (SROA, CSE, inline helpers)
//   tvet ai prog.bc entry... [options]   interpret entries, print JSON reports
#include "ai.h"
#include "vn.h"
#include "poly.h"
#include "ring.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <climits>
#include <set>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <chrono>
#include <csignal>
#include <unistd.h>

using namespace llvm;
Options opt;

static const DataLayout *DL;
static std::map<const Function *, FnCode *> fnOf;
static std::map<const GlobalValue *, int> globalId;
static std::vector<FnCode *> fnById; // object id -> function
static std::vector<Report> reports;
static std::map<std::string, uint64_t> reportKeys;
std::vector<const Ins *> callStack;
std::vector<FnCode *> fnStack;
static uint64_t steps = 0, ticks = 0;
static void tick();
static std::map<std::string, uint64_t> unmodelled;
std::map<std::string, uint64_t> counters;
static const std::string *curPhase = nullptr;
static std::set<std::string> phaseNames;
static std::set<std::string> visitedFns;
static std::vector<std::string> notes;

enum Ext {
  X_UNKNOWN, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_STRLEN, X_STRCMP, X_MALLOC, X_CALLOC, X_REALLOC,
  X_FREE, X_ABORT, X_ERRNO, X_IDENT, X_NOP, X_LIFE_START, X_LIFE_END, X_OBJSIZE, X_ASM_NOP, X_ASM_IDENT,
  X_ASM_BSF, X_ASM_BSR, X_ASM_DIVQ, X_ASM_UNKNOWN, X_EXPECT, X_OVF,
  X_TV_SECRET, X_TV_UNKNOWN, X_TV_LABEL, X_TV_LABEL_EACH, X_TV_DECLASSIFY, X_TV_RANGE, X_TV_EXPECT_INIT,
  X_TV_REQUIRE, X_TV_PHASE, X_TV_DUMP, X_TV_REQUIRE_EACH, X_TV_NEWBUF, X_TV_FORBID, X_TV_ASSERT, X_TV_RANGE_OBJ,
  X_TV_CHOICE, X_TV_ZERO, X_READ_FD, X_GETPID, X_LABELVAL, X_TV_REQUIRE_VAL, X_TV_UNINIT, X_TV_VARS, X_TV_SAME, X_TV_UF, X_TV_KNOWN, X_TV_PVARS, X_TV_PVAL, X_TV_PNUM, X_TV_PARITH, X_TV_PZERO, X_TV_PMAX, X_TV_PBELOW, X_TV_PSTORE, X_TV_PFLOOR, X_TV_ID, X_TV_RNEW, X_TV_RVAR, X_TV_RNUM, X_TV_ROP, X_TV_RRULE, X_TV_RSAME, X_TV_DEPENDS, X_CTLZ, X_CTTZ
};

static const std::map<std::string, int> extNames = {
  {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP},
  {"strlen", X_STRLEN}, {"strcmp", X_STRCMP}, {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC},
  {"free", X_FREE}, {"abort", X_ABORT}, {"torsion__abort", X_ABORT}, {"torsion__assert_fail", X_ABORT},
  {"__errno_location", X_ERRNO}, {"exit", X_ABORT},
  {"__tv_secret", X_TV_SECRET}, {"__tv_unknown", X_TV_UNKNOWN}, {"__tv_label", X_TV_LABEL},
  {"__tv_label_each", X_TV_LABEL_EACH}, {"__tv_declassify", X_TV_DECLASSIFY}, {"__tv_range", X_TV_RANGE},
  {"__tv_expect_init", X_TV_EXPECT_INIT}, {"__tv_require", X_TV_REQUIRE}, {"__tv_phase", X_TV_PHASE},
  {"__tv_dump", X_TV_DUMP}, {"__tv_require_each", X_TV_REQUIRE_EACH}, {"__tv_newbuf", X_TV_NEWBUF},
  {"__tv_forbid", X_TV_FORBID}, {"__tv_assert", X_TV_ASSERT}, {"__tv_choice", X_TV_CHOICE}, {"__tv_zero", X_TV_ZERO},
  {"__tv_labelval", X_LABELVAL}, {"__tv_require_val", X_TV_REQUIRE_VAL}, {"__tv_uninit", X_TV_UNINIT},
  {"__tv_vars", X_TV_VARS}, {"__tv_same", X_TV_SAME}, {"__tv_uf", X_TV_UF}, {"__tv_known", X_TV_KNOWN},
  {"__tv_pvars", X_TV_PVARS}, {"__tv_pval", X_TV_PVAL}, {"__tv_pnum", X_TV_PNUM}, {"__tv_parith", X_TV_PARITH}, {"__tv_pzero", X_TV_PZERO}, {"__tv_pmax", X_TV_PMAX}, {"__tv_pstore", X_TV_PSTORE}, {"__tv_pfloor", X_TV_PFLOOR}, {"__tv_pbelow", X_TV_PBELOW},
  {"__tv_id", X_TV_ID}, {"__tv_rnew", X_TV_RNEW}, {"__tv_rvar", X_TV_RVAR}, {"__tv_rnum", X_TV_RNUM}, {"__tv_rop", X_TV_ROP}, {"__tv_rrule", X_TV_RRULE}, {"__tv_rsame", X_TV_RSAME}, {"__tv_depends", X_TV_DEPENDS},
  {"getpid", X_GETPID},
};

// ---------------------------------------------------------------------------
// reports
static std::string locFile(const Instruction *I, int &line) {
  line = 0;
  if (!I) return "";
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return "";
  line = d.getLine();
  std::string f = d->getScope()->getFile()->getFilename().str();
  return f;
}
static std::string locFunc(const Instruction *I) {
  if (!I) return "";
  const DebugLoc &d = I->getDebugLoc();
  if (d) if (auto *sp = d->getScope()->getSubprogram()) return sp->getName().str();
  return I->getFunction()->getName().str();
}

// the current path went through a loop whose iterations had to be merged, so
// its memory errors are only possible, not certain
static bool curImp = false;

void report(const char *kind, const Ins *in, const std::string &detail, const std::string &var = "") {
  if (curImp) {
    if (!strcmp(kind, "OOB")) kind = "OOB_MAY";
  }
  const Instruction *I = in ? in->I : nullptr;
  int line;
  std::string file = locFile(I, line), func = locFunc(I);
  std::string key = std::string(kind) + "|" + file + ":" + std::to_string(line) + "|" + func + "|" + var;
  if (reportKeys[key]++) return;
  Report r;
  r.kind = kind; r.file = file; r.line = line; r.func = func; r.detail = detail; r.var = var;
  for (size_t i = callStack.size(); i-- > 0;) {
    int l;
    std::string f = locFile(callStack[i]->I, l);
    if (!r.stack.empty()) r.stack += " < ";
    r.stack += callStack[i]->I->getFunction()->getName().str() + ":" + std::to_string(l);
    if (r.stack.size() > 600) break;
  }
  if (curPhase) r.detail += " [phase " + *curPhase + "]";
  reports.push_back(r);
}

// ---------------------------------------------------------------------------
// translation
static unsigned tyW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  return 0;
}

static void writeConst(Obj *o, int64_t off, const Constant *c);

static int idOfGlobal(const GlobalValue *g) {
  auto it = globalId.find(g);
  if (it != globalId.end()) return it->second;
  int id = (int)initialGlobals.size();
  globalId[g] = id;
  initialGlobals.push_back(nullptr);
  fnById.resize(initialGlobals.size(), nullptr);
  ObjInfo *info = new ObjInfo;
  info->name = g->getName().str();
  info->origin = g;
  if (auto *F = dyn_cast<Function>(g)) {
    info->kind = OK_FUNC;
    initialGlobals[id] = newObj(0, info, avConst(0));
    FnCode *fc = fnOf[F];
    if (!fc) { fc = new FnCode; fc->F = F; fc->name = F->getName().str(); fnOf[F] = fc; }
    fc->objId = id;
    fnById[id] = fc;
    return id;
  }
  if (auto *A = dyn_cast<GlobalAlias>(g)) {
    if (auto *t = dyn_cast<GlobalValue>(A->getAliasee()->stripPointerCasts())) {
      int tid = idOfGlobal(t);
      globalId[g] = tid;
      return tid;
    }
  }
  auto *G = cast<GlobalVariable>(g);
  info->kind = OK_GLOBAL;
  info->isConstant = G->isConstant();
  info->isTLS = G->isThreadLocal();
  int64_t sz = DL->getTypeAllocSize(G->getValueType());
  Obj *o = newObj(sz, info, avConst(0));
  initialGlobals[id] = o;
  if (G->hasInitializer()) writeConst(o, 0, G->getInitializer());
  else fillMem(o, 0, sz, avTop(8), false);
  return id;
}

static AV constAV(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w > 128) return avTop(128);
    u128 v = (u128)ci->getValue().extractBitsAsZExtValue(std::min(w, 64u), 0);
    if (w > 64) v |= (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
    return avConst(v);
  }
  if (isa<ConstantPointerNull>(c)) return avConst(0);
  if (isa<UndefValue>(c)) { unsigned w = tyW(c->getType()); AV t = avTop(w ? w : 64); t.lab = L_UNINIT; return t; }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    int id = idOfGlobal(g);
    return avPtr(id, 0);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        AV b = constAV(ce->getOperand(0));
        return avAdd(b, avConst((u128)(uint64_t)off.getSExtValue()), 64);
      }
    }
    if (ce->isCast()) return constAV(ce->getOperand(0));
  }
  unsigned w = tyW(c->getType());
  return avTop(w ? w : 64);
}

static void writeConst(Obj *o, int64_t off, const Constant *c) {
  Type *t = c->getType();
  if (c->isNullValue() && !t->isPointerTy()) { return; } // already zero filled
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) {
      if (!cd->getElementType()->isIntegerTy()) return;
      writeMem(o, off + (int64_t)i * es, es, avConst(cd->getElementAsInteger(i)));
    }
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      int64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + (int64_t)i * es, ca->getOperand(i));
    }
    return;
  }
  unsigned sz = DL->getTypeStoreSize(t);
  if (sz == 0) return;
  if (sz > 16) { fillMem(o, off, sz, avTop(8), false); return; }
  if (c->isNullValue()) { writeMem(o, off, sz, avConst(0)); return; }
  writeMem(o, off, sz, constAV(c));
}

// Does a call result directly decide a branch?
static bool decides(const Value *v, int depth) {
  if (depth > 4) return false;
  for (const User *u : v->users()) {
    if (isa<BranchInst>(u) || isa<SwitchInst>(u)) return true;
    if (isa<ReturnInst>(u)) return true;
    if (isa<ICmpInst>(u) || isa<CastInst>(u) || isa<FreezeInst>(u)) { if (decides(u, depth + 1)) return true; }
    else if (auto *b = dyn_cast<BinaryOperator>(u)) { if (b->getOpcode() == Instruction::Xor && isa<Constant>(b->getOperand(1)) && decides(u, depth + 1)) return true; }
    else if (isa<PHINode>(u)) { if (decides(u, depth + 1)) return true; }
  }
  return false;
}

struct Xlate {
  FnCode &fc;
  std::map<const Value *, int> slot;
  std::map<const Constant *, int> cslot;
  std::map<const BasicBlock *, int> bid;
  Xlate(FnCode &f) : fc(f) {}
  int newSlot(unsigned w) {
    fc.slotW.push_back(w);
    fc.slotDef.push_back({-1, -1});
    return fc.nslots++;
  }
  int operand(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c);
      if (it != cslot.end()) return it->second;
      fc.consts.push_back(constAV(c));
      int s = ~(int)(fc.consts.size() - 1);
      cslot[c] = s;
      return s;
    }
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    unsigned w = tyW(v->getType());
    int n = 1;
    if (auto *st = dyn_cast<StructType>(v->getType())) { n = st->getNumElements(); w = 64; if (n == 0) n = 1; }
    int s = newSlot(w);
    for (int i = 1; i < n; i++) newSlot(w);
    slot[v] = s;
    return s;
  }
  void gepCommon(Ins &x, const GEPOperator *g) {
    x.op = OP_GEP;
    x.a = operand(g->getPointerOperand());
    int64_t c = 0;
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value *idx = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) {
        c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
        continue;
      }
      int64_t es = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(idx)) { c += ci->getSExtValue() * es; continue; }
      int s = operand(idx);
      unsigned w = tyW(idx->getType());
      x.gep.push_back({s, es});
      if (w != 64) x.w2 = w; // narrow index: sign extend
    }
    x.imm = c;
  }
  void run();
};

void Xlate::run() {
  const Function &F = *fc.F;
  DominatorTree DT(const_cast<Function &>(F));
  PostDominatorTree PDT(const_cast<Function &>(F));
  LoopInfo LI(DT);
  if (auto *sp = F.getSubprogram()) {
    fc.file = sp->getFilename().str();
    fc.line = sp->getLine();
  }
  fc.field = fc.file.find("fields/") != std::string::npos;
  fc.retW = tyW(F.getReturnType());
  ReversePostOrderTraversal<const Function *> RPOT(&F);
  std::vector<const BasicBlock *> order(RPOT.begin(), RPOT.end());
  for (size_t i = 0; i < order.size(); i++) bid[order[i]] = (int)i;
  fc.blks.resize(order.size());
  std::map<const Loop *, int> lid;
  std::function<void(Loop *, int)> addLoop = [&](Loop *L, int parent) {
    int id = (int)fc.loops.size();
    lid[L] = id;
    fc.loops.push_back({bid[L->getHeader()], parent, std::vector<bool>(order.size())});
    for (auto *b : L->blocks()) if (bid.count(b)) fc.loops[id].has[bid[b]] = true;
    for (auto *s : L->getSubLoops()) addLoop(s, id);
  };
  for (auto *L : LI) addLoop(L, -1);
  for (auto &A : F.args()) operand(&A);
  for (size_t bi = 0; bi < order.size(); bi++) {
    const BasicBlock *B = order[bi];
    Blk &b = fc.blks[bi];
    b.rpo = (int)bi;
    for (const Loop *L = LI.getLoopFor(B); L; L = L->getParentLoop()) b.loops.insert(b.loops.begin(), lid[L]);
    if (const Loop *L = LI.getLoopFor(B)) if (L->getHeader() == B) b.headerOf = lid[L];
    std::set<int> ps;
    for (const BasicBlock *P : predecessors(B)) if (bid.count(P)) ps.insert(bid[P]);
    b.preds.assign(ps.begin(), ps.end());
    if (auto *n = PDT.getNode(const_cast<BasicBlock *>(B)))
      if (n->getIDom() && n->getIDom()->getBlock()) b.ipdom = bid[n->getIDom()->getBlock()];
    b.light = true;
    if (auto *sw = dyn_cast<SwitchInst>(B->getTerminator()))
      if (auto *phi = dyn_cast<PHINode>(sw->getCondition()))
        if (phi->getParent() == B && b.headerOf < 0 &&
            std::all_of(phi->incoming_values().begin(), phi->incoming_values().end(), [](const Use &u) { return isa<ConstantInt>(u.get()); }))
          b.sel = operand(phi);
    for (const Instruction &I : *B) {
      if (auto *phi = dyn_cast<PHINode>(&I)) {
        Phi p;
        p.dst = operand(phi);
        p.w = tyW(phi->getType());
        for (int pi : b.preds) p.in.push_back(operand(phi->getIncomingValueForBlock(order[pi])));
        b.phis.push_back(p);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins x;
      x.I = &I;
      int line;
      std::string lf = locFile(&I, line);
      if (lf.find("fields/") != std::string::npos) x.flags |= F_FIELD;
      auto setDst = [&]() {
        x.dst = operand(&I);
        fc.slotDef[x.dst] = {(int)bi, (int)b.ins.size()};
      };
      switch (I.getOpcode()) {
      case Instruction::Add: x.op = OP_ADD; goto bin;
      case Instruction::Sub: x.op = OP_SUB; goto bin;
      case Instruction::Mul: x.op = OP_MUL; goto bin;
      case Instruction::And: x.op = OP_AND; goto bin;
      case Instruction::Or: x.op = OP_OR; goto bin;
      case Instruction::Xor: x.op = OP_XOR; goto bin;
      case Instruction::Shl: x.op = OP_SHL; goto bin;
      case Instruction::LShr: x.op = OP_LSHR; goto bin;
      case Instruction::AShr: x.op = OP_ASHR; goto bin;
      case Instruction::UDiv: x.op = OP_UDIV; goto bin;
      case Instruction::URem: x.op = OP_UREM; goto bin;
      case Instruction::SDiv: x.op = OP_SDIV; goto bin;
      case Instruction::SRem: x.op = OP_SREM; goto bin;
      bin:
        x.w = tyW(I.getType());
        if (x.op == OP_XOR && x.w >= 32 && !isa<Constant>(I.getOperand(0)) && !isa<Constant>(I.getOperand(1))) fc.hasXor = true;
        if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (o->hasNoSignedWrap()) x.flags |= F_NSW;
          if (o->hasNoUnsignedWrap()) x.flags |= F_NUW;
        }
        x.a = operand(I.getOperand(0));
        x.b = operand(I.getOperand(1));
        setDst();
        break;
      case Instruction::ICmp:
        x.op = OP_ICMP;
        x.pred = cast<ICmpInst>(I).getPredicate();
        x.w = tyW(I.getOperand(0)->getType());
        x.a = operand(I.getOperand(0));
        x.b = operand(I.getOperand(1));
        setDst();
        break;
      case Instruction::Select:
        x.op = OP_SELECT;
        x.w = tyW(I.getType());
        x.a = operand(I.getOperand(0));
        x.b = operand(I.getOperand(1));
        x.c = operand(I.getOperand(2));
        setDst();
        break;
      case Instruction::ZExt: x.op = OP_ZEXT; goto cast_;
      case Instruction::SExt: x.op = OP_SEXT; goto cast_;
      case Instruction::Trunc: x.op = OP_TRUNC; goto cast_;
      case Instruction::PtrToInt: x.op = OP_PTRTOINT; goto cast_;
      case Instruction::IntToPtr: x.op = OP_INTTOPTR; goto cast_;
      case Instruction::BitCast:
      case Instruction::Freeze: x.op = OP_COPY; goto cast_;
      cast_:
        x.w = tyW(I.getOperand(0)->getType());
        x.w2 = tyW(I.getType());
        x.a = operand(I.getOperand(0));
        setDst();
        break;
      case Instruction::GetElementPtr:
        gepCommon(x, cast<GEPOperator>(&I));
        x.w = 64;
        setDst();
        break;
      case Instruction::Load:
        x.op = OP_LOAD;
        x.a = operand(I.getOperand(0));
        x.imm = DL->getTypeStoreSize(I.getType());
        x.w = tyW(I.getType());
        setDst();
        break;
      case Instruction::Store:
        x.op = OP_STORE;
        x.a = operand(I.getOperand(1));
        x.b = operand(I.getOperand(0));
        x.w = tyW(I.getOperand(0)->getType());
        x.imm = DL->getTypeStoreSize(I.getOperand(0)->getType());
        b.light = false;
        break;
      case Instruction::Alloca: {
        x.op = OP_ALLOCA;
        auto &A = cast<AllocaInst>(I);
        x.imm = DL->getTypeAllocSize(A.getAllocatedType());
        x.a = operand(A.getArraySize());
        ObjInfo *info = new ObjInfo;
        info->name = I.getName().str();
        info->origin = &I;
        info->fn = &fc;
        info->kind = OK_STACK;
        x.info = info;
        x.w = 64;
        setDst();
        b.light = false;
        break;
      }
      case Instruction::ExtractValue: {
        x.op = OP_COPY;
        x.w = x.w2 = tyW(I.getType());
        int base = operand(I.getOperand(0));
        x.a = base < 0 ? base : base + (int)cast<ExtractValueInst>(I).getIndices()[0];
        setDst();
        break;
      }
      case Instruction::Br: {
        auto &br = cast<BranchInst>(I);
        if (br.isConditional()) {
          x.op = OP_CONDBR;
          x.a = operand(br.getCondition());
          x.succ = {bid[br.getSuccessor(0)], bid[br.getSuccessor(1)]};
        } else {
          x.op = OP_BR;
          x.succ = {bid[br.getSuccessor(0)]};
        }
        break;
      }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(I);
        x.op = OP_SWITCH;
        x.a = operand(sw.getCondition());
        x.w = tyW(sw.getCondition()->getType());
        x.succ = {bid[sw.getDefaultDest()]};
        for (auto &c : sw.cases()) x.cases.push_back({constAV(c.getCaseValue()).lo, bid[c.getCaseSuccessor()]});
        break;
      }
      case Instruction::Ret:
        x.op = OP_RET;
        x.a = I.getNumOperands() ? operand(I.getOperand(0)) : INT_MIN;
        x.w = fc.retW;
        break;
      case Instruction::Unreachable: x.op = OP_UNREACHABLE; break;
      case Instruction::Call: {
        auto &C = cast<CallInst>(I);
        b.light = false;
        x.op = OP_CALL;
        for (auto &a : C.args()) {
          if (a->getType()->isMetadataTy()) continue;
          x.args.push_back(operand(a));
        }
        if (!I.getType()->isVoidTy()) setDst();
        x.w = tyW(I.getType());
        if (C.isInlineAsm()) {
          auto *A = cast<InlineAsm>(C.getCalledOperand());
          std::string s = A->getAsmString();
          std::string cs = A->getConstraintString();
          if (s.empty()) x.ext = (I.getType()->isVoidTy()) ? X_ASM_NOP : X_ASM_IDENT;
          else if (s.find("pause") == 0) x.ext = X_ASM_NOP;
          else if (s.find("bsfq") == 0) x.ext = X_ASM_BSF;
          else if (s.find("bsrq") == 0) x.ext = X_ASM_BSR;
          else if (s.find("divq") == 0) x.ext = X_ASM_DIVQ;
          else x.ext = X_ASM_UNKNOWN;
          break;
        }
        const Function *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
        if (!cf) { x.a = operand(C.getCalledOperand()); break; }
        if (cf->isIntrinsic()) {
          switch (cf->getIntrinsicID()) {
          case Intrinsic::memcpy: x.ext = X_MEMCPY; break;
          case Intrinsic::memmove: x.ext = X_MEMMOVE; break;
          case Intrinsic::memset: x.ext = X_MEMSET; break;
          case Intrinsic::expect: x.op = OP_COPY; x.a = x.args[0]; x.w = x.w2 = tyW(I.getType()); b.light = true; break;
          case Intrinsic::threadlocal_address: x.op = OP_COPY; x.a = x.args[0]; x.w = x.w2 = 64; break;
          case Intrinsic::lifetime_start: x.ext = X_LIFE_START; break;
          case Intrinsic::lifetime_end: x.ext = X_LIFE_END; break;
          case Intrinsic::bswap: x.op = OP_BSWAP; x.a = x.args[0]; x.w = tyW(I.getType()); break;
          case Intrinsic::ctlz: x.ext = X_CTLZ; break;
          case Intrinsic::cttz: x.ext = X_CTTZ; break;
          case Intrinsic::ctpop: x.op = OP_CTPOP; x.a = x.args[0]; x.w = tyW(I.getType()); break;
          case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::donothing:
          case Intrinsic::stackrestore: x.ext = X_NOP; break;
          default: x.ext = X_UNKNOWN; break;
          }
          break;
        }
        auto en = extNames.find(cf->getName().str());
        if (en != extNames.end()) { x.ext = en->second; break; }
        if (!opt.ct)
          if (auto *rf = cf->getParent()->getFunction("__tvc_" + cf->getName().str()))
            if (fc.F != rf) cf = rf;
        if (cf->isDeclaration()) { x.ext = X_UNKNOWN; break; }
        FnCode *&t = fnOf[cf];
        if (!t) { t = new FnCode; t->F = cf; t->name = cf->getName().str(); }
        x.callee = t;
        if (decides(&I, 0)) x.flags |= F_SPLIT;
        break;
      }
      default:
        x.op = OP_NOP;
        if (!I.getType()->isVoidTy()) { x.w = tyW(I.getType()); setDst(); x.op = OP_CALL; x.ext = X_UNKNOWN; }
        unmodelled[std::string("opcode ") + I.getOpcodeName()]++;
      }
      b.ins.push_back(std::move(x));
    }
    if (b.ins.size() > 12) b.light = false;
  }
}

static void ensure(FnCode *fc) {
  if (fc->translated) return;
  fc->translated = true;
  Xlate x(*fc);
  x.run();
}

// liveness at merge points, computed lazily
static std::map<FnCode *, std::vector<std::vector<bool>>> liveIn;
static const std::vector<bool> &liveAt(FnCode *fc, int blk) {
  auto it = liveIn.find(fc);
  if (it == liveIn.end()) {
    size_t nb = fc->blks.size();
    std::vector<std::vector<bool>> L(nb, std::vector<bool>(fc->nslots));
    bool ch = true;
    auto uses = [&](const Ins &x, std::vector<bool> &s) {
      auto u = [&](int o) { if (o >= 0) s[o] = true; };
      switch (x.op) {
      case OP_GEP: u(x.a); for (auto &g : x.gep) u(g.first); break;
      case OP_LOAD: case OP_ZEXT: case OP_SEXT: case OP_TRUNC: case OP_COPY: case OP_PTRTOINT: case OP_INTTOPTR:
      case OP_CONDBR: case OP_SWITCH: case OP_ALLOCA: case OP_BSWAP: case OP_CTPOP: u(x.a); break;
      case OP_RET: if (x.a != INT_MIN) u(x.a); break;
      case OP_CALL: for (int a : x.args) u(a); if (x.ext < 0 && !x.callee) u(x.a); break;
      case OP_SELECT: u(x.a); u(x.b); u(x.c); break;
      case OP_BR: case OP_UNREACHABLE: case OP_NOP: break;
      default: u(x.a); u(x.b);
      }
    };
    while (ch) {
      ch = false;
      for (size_t bi = nb; bi-- > 0;) {
        Blk &b = fc->blks[bi];
        std::vector<bool> s(fc->nslots);
        auto addSucc = [&](int t) {
          for (int i = 0; i < fc->nslots; i++) if (L[t][i]) s[i] = true;
          Blk &tb = fc->blks[t];
          size_t pi = std::find(tb.preds.begin(), tb.preds.end(), (int)bi) - tb.preds.begin();
          for (auto &p : tb.phis) if (p.in[pi] >= 0) s[p.in[pi]] = true;
        };
        for (int t : b.ins.back().succ) addSucc(t);
        for (auto &c : b.ins.back().cases) addSucc(c.second);
        for (size_t k = b.ins.size(); k-- > 0;) {
          if (b.ins[k].dst >= 0) s[b.ins[k].dst] = false;
          uses(b.ins[k], s);
        }
        // phi destinations stay live at block entry (evaluated on the edge)
        if (s != L[bi]) { L[bi] = s; ch = true; }
      }
      // remove phi dsts from live-in for predecessors: approximated (kept live)
    }
    it = liveIn.emplace(fc, std::move(L)).first;
  }
  return it->second[blk];
}

// ---------------------------------------------------------------------------
// interpreter
struct Ctl { int ipdom; Labels lab; };
struct Nest { int loop; int iter; int unk; };
static const int SAT = INT_MAX;

struct Tok {
  int blk = 0, ins = 0;
  std::vector<AV> env;
  Mem mem;
  std::vector<Ctl> ctl;
  std::vector<Nest> nest;
};

struct Key {
  int blk, ins, serial;
  std::vector<std::pair<int, int>> nest;
};

struct Res { AV ret; Mem mem; };

static Labels baseCtl = 0; // control labels inherited from callers
static int heapNext = ID_HEAP;
static std::map<std::string, int> heapSites;
static int saturatedDepth = 0;

static inline Labels ctlOf(const Tok &t) {
  Labels l = baseCtl;
  for (auto &c : t.ctl) l |= c.lab;
  return l;
}

typedef std::vector<Res> Results;
static void execFn(FnCode *fc, const std::vector<AV> &args, Mem &&mem, Results &out);

static bool readThrough(const Mem &m, const AV &p, unsigned size, AV &out, const Ins *in, Labels extra);

static void oobReport(const Ins *in, const Obj *o, int64_t lo, int64_t hi, int64_t n, bool definite) {
  if (!opt.oob) return;
  static std::set<std::pair<const void *, std::pair<const void *, bool>>> seen;
  if (!seen.insert({in, {o->info, definite}}).second) return;
  std::string d = "access of " + std::to_string(n) + " byte(s) at offset " + std::to_string(lo) +
                  (lo == hi ? "" : ".." + std::to_string(hi)) + " of " + (o->info ? o->info->name : "?") + " (size " +
                  std::to_string(o->size) + ")";
  report(definite ? "OOB" : "OOB_MAY", in, d, o->info ? o->info->name : "");
}

// clamp an offset range to the object; returns false when nothing is left
static bool clampRange(const Ins *in, const Obj *o, int64_t &lo, int64_t &hi, uint64_t &stride, int64_t n) {
  if (o->size < 0 || (o->summ && o->size <= 0)) return true;
  if (lo >= 0 && hi + n <= o->size) return true;
  bool definite = lo == hi || hi < 0 || lo + n > o->size;
  oobReport(in, o, lo, hi, n, definite);
  if (o->size < n) return false;
  if (lo < 0) { int64_t s = stride > 1 ? (int64_t)stride : 1; int64_t d = (-lo + s - 1) / s * s; lo += d; }
  if (hi + n > o->size) { hi = o->size - n; if (stride > 1 && hi >= lo) hi -= (hi - lo) % (int64_t)stride; }
  return lo <= hi;
}

static bool doLoad(Tok &t, const Ins &x, const AV &p, AV &r) {
  unsigned n = (unsigned)x.imm;
  if (opt.ct && (p.lab & L_SECRET)) report("CT_ADDR", &x, "load address depends on secret data");
  if (opt.uninit && (p.lab & L_UNINIT)) report(defUninit(p.lab) ? "UNINIT_ADDR" : "UNINIT_ADDR_MAY", &x, "load address depends on uninitialised data");
  r = avBot();
  std::vector<PEnt> es;
  if (p.obj > 0) {
    const Obj *o = lookup(t.mem, p.obj);
    if (o && p.lo == p.hi) {
      int64_t off = (int64_t)p.lo;
      if (off >= 0 && (o->summ ? (o->size < 0 || off + (int64_t)n <= o->size) : off + (int64_t)n <= o->size)) {
        r = readMem(o, off, n);
        if (o->freed && opt.oob) report("USE_AFTER_FREE", &x, "read of freed object " + o->info->name);
        if (x.w < n * 8 && r.obj == O_NONE) { uint32_t id = vnMode ? vnTrunc(r, n * 8, x.w) : 0; r = avTrunc(r, n * 8, x.w); if (vnMode) r.sym = id; }
        if (opt.noclear) r.lab |= p.lab;
        return true;
      }
    }
  }
  ptrEntries(p, es);
  bool any = false;
  for (auto &e : es) {
    if (e.obj == O_NONE) continue;
    const Obj *o = lookup(t.mem, e.obj);
    if (!o) { report("BADPTR", &x, "load through dangling pointer"); continue; }
    int64_t lo = e.lo, hi = e.hi;
    uint64_t st = e.stride;
    if (!clampRange(&x, o, lo, hi, st, n)) { any = true; r = join(r, avTop(x.w), x.w); continue; }
    any = true;
    if (lo == hi || o->summ) { r = join(r, readMem(o, o->summ ? 0 : lo, n), x.w); continue; }
    int64_t s = st > 1 ? (int64_t)st : 1;
    int64_t cnt = (hi - lo) / s + 1;
    if (cnt > 1200) {
      { Labels ll = labelsOf(o, lo, hi + n - lo); if (ll & L_UNINIT) ll |= L_MAYINIT; r = join(r, avTop(x.w, ll), x.w); }
      continue;
    }
    for (int64_t off = lo; off <= hi; off += s) {
      AV v = readMem(o, off, n);
      v.sym = 0;
      r = join(r, v, x.w);
      // skip over a uniform run
      const Page *pg = o->pages[off / PG];
      (void)pg;
    }
  }
  if (!any) {
    if (p.obj == O_NONE) {
      if (isConst(p) && p.lo == 0) { if (opt.oob) report("NULLDEREF", &x, "load through null pointer"); return false; }
      counters["load_unknown_pointer"]++;
      if (opt.verbose) report("UNKPTR", &x, "load through untracked pointer");
      r = avTop(x.w, p.lab);
      return true;
    }
    return false;
  }
  if (x.w < n * 8 && r.obj == O_NONE) r = avTrunc(r, n * 8, x.w);
  r.sym = 0;
  if (vnMode && p.obj > 0 && es.size() == 1 && x.w == n * 8 && r.obj == O_NONE && r.lo != r.hi) {
    const Obj *o = lookup(t.mem, p.obj);
    if (o && es[0].lo >= 0 && es[0].hi + (int64_t)n <= o->size) r.sym = vnLoad(o, es[0].lo, es[0].hi, p.sym, n);
  }
  if (opt.noclear || es.size() > 1) r.lab |= p.lab & ~L_SECRET;
  if (opt.noclear) r.lab |= p.lab;
  if (p.lab & L_SECRET) r.lab |= L_SECRET;
  return true;
}

static bool storeTo(Tok &t, const Ins &x, const AV &p, const AV &v, unsigned n) {
  if (opt.ct && (p.lab & L_SECRET)) report("CT_ADDR", &x, "store address depends on secret data");
  if (opt.uninit && (p.lab & L_UNINIT)) report(defUninit(p.lab) ? "UNINIT_ADDR" : "UNINIT_ADDR_MAY", &x, "store address depends on uninitialised data");
  if (p.obj > 0 && p.lo == p.hi) {
    Obj *o = lookupW(t.mem, p.obj);
    int64_t off = (int64_t)p.lo;
    if (o && off >= 0 && (o->size < 0 || off + (int64_t)n <= o->size)) {
      if (o->info && o->info->isConstant && opt.oob) report("WRITE_CONST", &x, "store to constant object " + o->info->name);
      if (o->info && o->info->kind == OK_GLOBAL) counters["global_store " + o->info->name]++;
      if (o->weak || o->summ) weakWrite(o, off, n, v);
      else writeMem(o, off, n, v);
      return true;
    }
  }
  std::vector<PEnt> es;
  ptrEntries(p, es);
  bool any = false;
  for (auto &e : es) {
    if (e.obj == O_NONE) continue;
    Obj *o = lookupW(t.mem, e.obj);
    if (!o) { report("BADPTR", &x, "store through dangling pointer"); continue; }
    int64_t lo = e.lo, hi = e.hi;
    uint64_t st = e.stride;
    any = true;
    if (!clampRange(&x, o, lo, hi, st, n)) continue;
    if (o->summ) { weakWrite(o, 0, n, v); continue; }
    if (lo == hi && es.size() == 1 && !o->weak) { writeMem(o, lo, n, v); continue; }
    int64_t s = st > 1 ? (int64_t)st : 1;
    int64_t cnt = (hi - lo) / s + 1;
    AV w = v;
    w.lab |= p.lab;
    if (cnt > 1200) { fillMem(o, lo, hi + n - lo, avTop(8, w.lab), true); continue; }
    for (int64_t off = lo; off <= hi; off += s) weakWrite(o, off, n, w);
  }
  if (!any) {
    if (isConst(p) && p.lo == 0) { if (opt.oob) report("NULLDEREF", &x, "store through null pointer"); return false; }
    counters["store_unknown_pointer"]++;
    if (opt.verbose) report("UNKPTR", &x, "store through untracked pointer");
  }
  return true;
}

// ---- externals ------------------------------------------------------------
static AV rangeLen(const AV &n) { return n; }

static bool memRange(Tok &t, const Ins &x, const AV &p, const AV &n, std::vector<PEnt> &es, const char *what) {
  if (opt.ct && ((p.lab | n.lab) & L_SECRET)) report("CT_ADDR", &x, std::string(what) + " pointer or length depends on secret data");
  if (opt.uninit && ((p.lab | n.lab) & L_UNINIT)) report(defUninit(p.lab) || defUninit(n.lab) ? "UNINIT_ADDR" : "UNINIT_ADDR_MAY", &x, std::string(what) + " pointer or length depends on uninitialised data");
  ptrEntries(p, es);
  return true;
}

static void checkMemBounds(const Ins &x, const Obj *o, const PEnt &e, u128 nlo, u128 nhi) {
  if (!opt.oob || o->size < 0 || nhi == 0) return;
  i128 end = (i128)e.hi + (i128)nhi;
  if (e.lo < 0 || end > o->size) {
    bool definite = e.lo == e.hi && nlo == nhi;
    std::string d = "range of " + u128s(nlo) + ".." + u128s(nhi) + " byte(s) at offset " + std::to_string(e.lo) + ".." +
                    std::to_string(e.hi) + " of " + (o->info ? o->info->name : "?") + " (size " + std::to_string(o->size) + ")";
    report(definite ? "OOB" : "OOB_MAY", &x, d, o->info ? o->info->name : "");
  }
}

static void doMemset(Tok &t, const Ins &x, const AV &p, const AV &v, const AV &n, Labels ctl) {
  std::vector<PEnt> es;
  memRange(t, x, p, n, es, "memset");
  u128 nlo, nhi;
  ubounds(n, 64, nlo, nhi);
  AV b = avTrunc(v, 32, 8);
  if (v.lo == v.hi) b = mk(v.lo & 0xff, v.lo & 0xff, v.lab, 0);
  if (!opt.noclear && isConst(b)) b.lab = 0;
  b.lab |= ctl;
  for (auto &e : es) {
    if (e.obj == O_NONE) continue;
    Obj *o = lookupW(t.mem, e.obj);
    if (!o) continue;
    checkMemBounds(x, o, e, nlo, nhi);
    int64_t sz = o->size < 0 ? INT64_MAX / 4 : o->size;
    if (o->summ) { fillMem(o, 0, 1, b, true); continue; }
    int64_t lo = std::max<int64_t>(e.lo, 0), hi = std::min<int64_t>(e.hi, sz);
    if (lo > sz) continue;
    if (e.lo == e.hi && es.size() == 1 && !o->weak) {
      int64_t def = (int64_t)std::min<u128>(nlo, (u128)(sz - lo));
      fillMem(o, lo, def, b, false);
      int64_t may = (int64_t)std::min<u128>(nhi, (u128)(sz - lo));
      if (may > def) fillMem(o, lo + def, may - def, b, true);
    } else {
      int64_t end = (int64_t)std::min<i128>((i128)hi + (i128)nhi, (i128)sz);
      if (end > lo) fillMem(o, lo, end - lo, b, true);
    }
  }
}

static void doMemcpy(Tok &t, const Ins &x, const AV &d, const AV &s, const AV &n, Labels ctl) {
  std::vector<PEnt> ds, ss;
  memRange(t, x, d, n, ds, "memcpy");
  memRange(t, x, s, n, ss, "memcpy");
  u128 nlo, nhi;
  ubounds(n, 64, nlo, nhi);
  if (nhi == 0) return;
  // remove null entries
  auto purge = [](std::vector<PEnt> &v) { v.erase(std::remove_if(v.begin(), v.end(), [](const PEnt &e) { return e.obj == O_NONE; }), v.end()); };
  purge(ds);
  purge(ss);
  for (auto &de : ds) {
    const Obj *chk = lookup(t.mem, de.obj);
    if (!chk) continue;
    checkMemBounds(x, chk, de, nlo, nhi);
    Labels lab = ctl | (opt.noclear ? (d.lab | s.lab | n.lab) : 0);
    bool single = ds.size() == 1 && de.lo == de.hi;
    if (ss.empty()) { // untracked source
      Obj *o = lookupW(t.mem, de.obj);
      int64_t sz = o->size < 0 ? 0 : o->size;
      int64_t lo = std::max<int64_t>(de.lo, 0), end = (int64_t)std::min<i128>((i128)de.hi + (i128)nhi, (i128)sz);
      if (end > lo) fillMem(o, lo, end - lo, avTop(8, s.lab | lab), !(single && nlo == nhi));
      continue;
    }
    for (auto &se : ss) {
      const Obj *so = lookup(t.mem, se.obj);
      if (!so) continue;
      checkMemBounds(x, so, se, nlo, nhi);
      Obj *o = lookupW(t.mem, de.obj);
      so = lookup(t.mem, se.obj);
      bool strong = single && ss.size() == 1 && !o->weak;
      int64_t dsz = o->size < 0 ? INT64_MAX / 4 : o->size, ssz = so->size < 0 ? INT64_MAX / 4 : so->size;
      if (o->summ || so->summ || !(de.lo == de.hi && se.lo == se.hi)) {
        // imprecise addresses: summarise source labels/values
        int64_t sl = std::max<int64_t>(se.lo, 0), send = (int64_t)std::min<i128>((i128)se.hi + (i128)nhi, (i128)ssz);
        AV v = avBot();
        if (so->summ) v = so->pages[0]->cells[0].es == 1 ? so->pages[0]->cells[0].v : avTop(8, so->pages[0]->cells[0].v.lab);
        else if (send > sl) {
          // element-preserving copy when the destination is fixed and offsets enumerable
          uint64_t st = se.stride > 1 ? se.stride : 1;
          int64_t cnt = (se.hi - se.lo) / (int64_t)st + 1;
          if (de.lo == de.hi && !o->summ && cnt <= 4096 && nlo == nhi && se.lo >= 0 && se.hi + (int64_t)nhi <= ssz && de.lo >= 0 && de.lo + (int64_t)nhi <= dsz) {
            bool first = strong;
            for (int64_t so_ = se.lo; so_ <= se.hi; so_ += st) {
              copyMem(o, de.lo, so, so_, (int64_t)nhi, !first);
              so = lookup(t.mem, se.obj);
              first = false;
            }
            if (lab) addLabels(o, de.lo, (int64_t)nhi, lab | s.lab, 0);
            continue;
          }
          v = avTop(8, labelsOf(so, sl, send - sl));
          if (v.lab & L_UNINIT) v.lab |= L_MAYINIT;
          // all-constant-zero?
        }
        if (v.obj == O_BOT) v = avTop(8);
        v.lab |= lab;
        if (o->summ) { fillMem(o, 0, 1, v, true); continue; }
        int64_t lo = std::max<int64_t>(de.lo, 0), end = (int64_t)std::min<i128>((i128)de.hi + (i128)nhi, (i128)dsz);
        if (end > lo) {
          bool st2 = strong && de.lo == de.hi;
          if (st2) {
            int64_t def = (int64_t)std::min<u128>(nlo, (u128)(end - lo));
            fillMem(o, lo, def, v, false);
            if (end - lo > def) fillMem(o, lo + def, end - lo - def, v, true);
          } else fillMem(o, lo, end - lo, v, true);
        }
        continue;
      }
      if (de.lo < 0 || se.lo < 0) continue;
      int64_t room = std::min(dsz - de.lo, ssz - se.lo);
      if (room <= 0) continue;
      int64_t def = (int64_t)std::min<u128>(nlo, (u128)room), may = (int64_t)std::min<u128>(nhi, (u128)room);
      copyMem(o, de.lo, so, se.lo, def, !strong);
      if (may > def) {
        so = lookup(t.mem, se.obj);
        copyMem(o, de.lo + def, so, se.lo + def, may - def, true);
      }
      if (lab) addLabels(o, de.lo, may, lab, 0);
    }
  }
}

static std::string strAt(const Mem &m, const AV &p) {
  std::string s;
  if (p.obj <= 0 || p.lo != p.hi) return s;
  const Obj *o = lookup(m, p.obj);
  if (!o) return s;
  for (int64_t i = (int64_t)p.lo; i < o->size && s.size() < 200; i++) {
    AV v = readMem(o, i, 1);
    if (!isConst(v) || v.lo == 0) break;
    s += (char)v.lo;
  }
  return s;
}

static bool allBytesZero(const Obj *o, int64_t off, int64_t n) {
  for (int64_t i = 0; i < n; i++) {
    AV v = readMem(o, off + i, 1);
    if (!isConst(v) || v.lo) return false;
  }
  return true;
}

static AV heapAlloc(Tok &t, const Ins &x, const AV &n, bool zero) {
  u128 lo, hi;
  ubounds(n, 64, lo, hi);
  int64_t size = lo == hi && hi < ((u128)1 << 40) ? (int64_t)hi : -1;
  ObjInfo *info = nullptr;
  static std::map<std::string, ObjInfo *> infos;
  std::string site;
  for (auto *c : callStack) { char b[32]; snprintf(b, sizeof b, "%p/", (void *)c); site += b; }
  char b[32];
  snprintf(b, sizeof b, "%p", (void *)&x);
  site += b;
  ObjInfo *&inf = infos[site];
  if (!inf) {
    inf = new ObjInfo;
    int line;
    std::string f = locFile(x.I, line);
    inf->name = "heap@" + locFunc(x.I) + ":" + std::to_string(line);
    inf->kind = OK_HEAP;
    inf->origin = x.I;
  }
  info = inf;
  AV fill = zero ? avConst(0) : avTop(8, L_UNINIT);
  if (saturatedDepth > 0) {
    auto it = heapSites.find(site);
    int id;
    if (it == heapSites.end()) { id = heapNext++; heapSites[site] = id; }
    else id = it->second;
    auto f = t.mem.other.find(id);
    Obj *o = newObj(size, info, fill);
    o->weak = true;
    if (f == t.mem.other.end()) t.mem.other[id] = o;
    else { joinObj(f->second, o, false, 0); objUnref(o); }
    return avPtr(id, 0);
  }
  int id = heapNext++;
  t.mem.other[id] = newObj(size, info, fill);
  return avPtr(id, 0);
}

static void zeroCheckObj(const Ins *x, const Obj *o, const char *kind) {
  if (!opt.zero || !o || !o->info) return;
  if (o->size <= 0 && !o->summ) return;
  int64_t n = o->summ ? 1 : o->size;
  if (labelsOf(o, 0, n) & L_SECRET) {
    // which bytes
    int64_t first = -1, last = -1;
    if (!o->summ)
      for (int64_t i = 0; i < n; i++)
        if (labelsOf(o, i, 1) & L_SECRET) { if (first < 0) first = i; last = i; }
    FnCode *f = (FnCode *)o->info->fn;
    const Instruction *I = (const Instruction *)o->info->origin;
    (void)I;
    report(kind, x, "object " + o->info->name + " still holds secret-derived bytes " + std::to_string(first) + ".." + std::to_string(last) + " of " + std::to_string(o->size) + (f ? " at return of " + f->name : ""), o->info->name);
  }
}

// returns: 0 continue, 1 path ends
static int callExt(Tok &t, const Ins &x, int ext, const std::vector<AV> &a, AV &ret, FnCode *fc) {
  Labels ctl = opt.implicit ? ctlOf(t) : 0;
  unsigned w = x.w ? x.w : 64;
  ret = avTop(w);
  switch (ext) {
  case X_NOP: case X_ASM_NOP: case X_LIFE_END: return 0;
  case X_LIFE_START: {
    const AV &p = a[1];
    if (p.obj > 0 && p.lo == p.hi) {
      Obj *o = lookupW(t.mem, p.obj);
      if (o && o->info && o->info->kind == OK_STACK && p.lo == 0) {
        if (opt.zero) zeroCheckObj(&x, o, "ZERO_SCOPE");
        fillMem(o, 0, o->summ ? 1 : o->size, avTop(8, L_UNINIT), false);
      }
    }
    return 0;
  }
  case X_ASM_IDENT: ret = a.empty() ? avTop(w) : a[0]; return 0;
  case X_ASM_BSF: case X_ASM_BSR:
    if (isConst(a[0]) && a[0].lo) {
      uint64_t v = (uint64_t)a[0].lo;
      ret = avConst(ext == X_ASM_BSF ? __builtin_ctzll(v) : 63 - __builtin_clzll(v));
    } else ret = avRange(0, 63, a[0].lab);
    return 0;
  case X_CTLZ: case X_CTTZ:
    if (isConst(a[0])) {
      unsigned n = 0;
      for (; n < w; n++) if ((a[0].lo >> (ext == X_CTTZ ? n : w - 1 - n)) & 1) break;
      ret = avConst(n);
      ret.lab = a[0].lab;
    } else ret = avRange(0, w, a[0].lab);
    return 0;
  case X_ASM_DIVQ: {
    // n0, n1, d -> q, r
    Labels l = a[0].lab | a[1].lab | a[2].lab;
    if (opt.ct && (l & L_SECRET)) report("CT_DIV", &x, "division of secret data");
    if (isConst(a[0]) && isConst(a[1]) && isConst(a[2]) && a[2].lo) {
      u128 n = (a[1].lo << 64) | a[0].lo;
      t.env[x.dst] = avConst((uint64_t)(n / a[2].lo));
      t.env[x.dst + 1] = avConst((uint64_t)(n % a[2].lo));
    } else {
      t.env[x.dst] = avTop(64, l);
      t.env[x.dst + 1] = avTop(64, l);
      if (a[2].lo <= a[2].hi && a[2].hi) t.env[x.dst + 1] = avRange(0, a[2].hi - 1, l);
    }
    return 2;
  }
  case X_ASM_UNKNOWN: {
    unmodelled["asm in " + fc->name]++;
    if (auto *st = dyn_cast<StructType>(x.I->getType())) {
      for (unsigned i = 0; i < st->getNumElements(); i++) t.env[x.dst + i] = avTop(tyW(st->getElementType(i)));
      return 2;
    }
    return 0;
  }
  case X_MEMCPY: case X_MEMMOVE: doMemcpy(t, x, a[0], a[1], a[2], ctl); ret = a[0]; return 0;
  case X_MEMSET: doMemset(t, x, a[0], a[1], a[2], ctl); ret = a[0]; return 0;
  case X_MEMCMP: case X_STRCMP: case X_STRLEN: {
    Labels l = 0;
    for (size_t i = 0; i < a.size() && i < 2; i++) {
      std::vector<PEnt> es;
      ptrEntries(a[i], es);
      for (auto &e : es) {
        const Obj *o = e.obj ? lookup(t.mem, e.obj) : nullptr;
        if (o && o->size > 0 && e.lo >= 0 && e.lo < o->size) {
          int64_t n = o->size - e.lo;
          if (ext == X_MEMCMP && isConst(a[2])) n = std::min<int64_t>(n, (int64_t)a[2].lo);
          l |= labelsOf(o, e.lo, n);
        }
      }
    }
    if (opt.ct && (l & L_SECRET)) report("CT_CALL", &x, "variable-time comparison of secret data");
    if (ext == X_STRLEN) {
      std::string s = strAt(t.mem, a[0]);
      const Obj *o = a[0].obj > 0 ? lookup(t.mem, a[0].obj) : nullptr;
      if (o && a[0].lo == a[0].hi) {
        AV z = (int64_t)(a[0].lo + s.size()) < o->size ? readMem(o, (int64_t)a[0].lo + s.size(), 1) : avTop(8);
        if (isConst(z) && z.lo == 0) { ret = avConst(s.size()); return 0; }
      }
    }
    ret = avTop(w, l & ~L_UNINIT);
    return 0;
  }
  case X_MALLOC: {
    if (opt.ct && (a[0].lab & L_SECRET)) report("CT_CALL", &x, "allocation size depends on secret data");
    counters["malloc"]++;
    ret = heapAlloc(t, x, a[0], false);
    return 0;
  }
  case X_CALLOC: ret = heapAlloc(t, x, avMul(a[0], a[1], 64), true); return 0;
  case X_REALLOC: {
    ret = heapAlloc(t, x, a[1], false);
    std::vector<PEnt> es;
    ptrEntries(a[0], es);
    for (auto &e : es)
      if (e.obj) {
        const Obj *o = lookup(t.mem, e.obj);
        if (!o) continue;
        Obj *d = lookupW(t.mem, ret.obj);
        o = lookup(t.mem, e.obj);
        int64_t n = (o->summ || d->summ) ? 1 : std::min(o->size, d->size);
        copyMem(d, 0, o, 0, n, es.size() > 1 || d->weak);
      }
    return 0;
  }
  case X_FREE: {
    std::vector<PEnt> es;
    ptrEntries(a[0], es);
    for (auto &e : es)
      if (e.obj >= ID_HEAP && e.obj < ID_STACK) {
        auto it = t.mem.other.find(e.obj);
        if (it == t.mem.other.end()) continue;
        zeroCheckObj(&x, it->second, "ZERO_FREE");
        if (es.size() == 1 && !it->second->weak) { objUnref(it->second); t.mem.other.erase(it); }
      }
    return 0;
  }
  case X_ABORT: return 1;
  case X_ERRNO: {
    static int id = 0;
    if (!id) {
      id = (int)initialGlobals.size();
      ObjInfo *inf = new ObjInfo;
      inf->name = "errno";
      inf->kind = OK_GLOBAL;
      inf->isTLS = true;
      initialGlobals.push_back(newObj(4, inf, avTop(8)));
      fnById.resize(initialGlobals.size(), nullptr);
    }
    ret = avPtr(id, 0);
    return 0;
  }
  case X_TV_VARS: { // p, n, lo, hi
    Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookupW(t.mem, a[0].obj) : nullptr;
    if (!o || !isConst(a[1])) { notes.push_back("harness: bad variable range"); return 0; }
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) {
      AV v = avRange(a[2].lo, a[3].lo);
      v.sym = vnVar(a[2].lo, a[3].lo, 8);
      writeMem(o, (int64_t)a[0].lo + i, 1, v);
    }
    return 0;
  }
  case X_TV_SAME: { // p, q, n, name
    const Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    const Obj *q = a[1].obj > 0 && a[1].lo == a[1].hi ? lookup(t.mem, a[1].obj) : nullptr;
    if (!o || !q || !isConst(a[2])) { notes.push_back("harness: bad comparison"); return 0; }
    std::string nm = strAt(t.mem, a[3]);
    int64_t diff = 0, lost = 0, first = -1;
    std::string why;
    for (int64_t i = 0; i < (int64_t)a[2].lo; i++) {
      uint32_t u = vnOf(readMem(o, (int64_t)a[0].lo + i, 1), 8), v = vnOf(readMem(q, (int64_t)a[1].lo + i, 1), 8);
      counters["equality_obligations"]++;
      if (u && u == v) continue;
      if (first < 0) { first = i; if (opt.verbose) why = ": " + vnShow(u, 6) + " vs " + vnShow(v, 6); }
      if (!u || !v) lost++;
      else diff++;
    }
    if (diff) report("VN_DIFF", &x, nm + ": " + std::to_string(diff) + " byte(s) differ, first at " + std::to_string(first) + why, nm);
    else if (lost) report("VN_LOST", &x, nm + ": " + std::to_string(lost) + " byte(s) not tracked, first at " + std::to_string(first) + why, nm);
    return 0;
  }
  case X_TV_UF: { // dst, n, name, src, m
    const Obj *q = a[3].obj > 0 && a[3].lo == a[3].hi ? lookup(t.mem, a[3].obj) : nullptr;
    if (!q || !isConst(a[1]) || !isConst(a[4])) { notes.push_back("harness: bad function"); return 0; }
    std::vector<uint32_t> in, out;
    for (int64_t i = 0; i < (int64_t)a[4].lo; i++) in.push_back(vnOf(readMem(q, (int64_t)a[3].lo + i, 1), 8));
    vnUF(strAt(t.mem, a[2]), in, (unsigned)a[1].lo, out);
    Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookupW(t.mem, a[0].obj) : nullptr;
    if (!o) { notes.push_back("harness: bad function"); return 0; }
    for (size_t i = 0; i < out.size(); i++) {
      AV v = avTop(8);
      v.sym = out[i];
      vnRefine(v, 8);
      writeMem(o, (int64_t)a[0].lo + i, 1, v);
    }
    return 0;
  }
  case X_TV_ID: { // p, n: a number for the value of these bytes, 0 when it is not tracked
    static std::map<std::vector<uint32_t>, uint32_t> ids;
    const Obj *q = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    if (!q || !isConst(a[1])) { notes.push_back("harness: bad identity"); ret = avConst(0); return 0; }
    std::vector<uint32_t> in;
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) {
      uint32_t u = vnOf(readMem(q, (int64_t)a[0].lo + i, 1), 8);
      if (!u) { ret = avConst(0); return 0; }
      in.push_back(u);
    }
    uint32_t &k = ids[in];
    if (!k) k = (uint32_t)ids.size();
    ret = avConst(k);
    return 0;
  }
  case X_TV_DEPENDS: { // p, n, q, m, name: the first bytes are computed from each of the others
    const Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    const Obj *q = a[2].obj > 0 && a[2].lo == a[2].hi ? lookup(t.mem, a[2].obj) : nullptr;
    if (!o || !q || !isConst(a[1]) || !isConst(a[3])) { notes.push_back("harness: bad dependence"); return 0; }
    std::string nm = strAt(t.mem, a[4]);
    std::set<uint32_t> seen;
    int64_t missing = 0, first = -1;
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) vnReach(vnOf(readMem(o, (int64_t)a[0].lo + i, 1), 8), seen);
    for (int64_t i = 0; i < (int64_t)a[3].lo; i++) {
      uint32_t u = vnOf(readMem(q, (int64_t)a[2].lo + i, 1), 8);
      counters["equality_obligations"]++;
      if (vnIsConst(u) || (u && seen.count(u))) continue;
      missing++;
      if (first < 0) first = i;
    }
    if (missing) report("VN_DIFF", &x, nm + ": does not depend on " + std::to_string(missing) + " byte(s), first at " + std::to_string(first), nm);
    return 0;
  }
  case X_TV_RNEW: case X_TV_RNUM: { // p, n: modulus; ring, p, n: constant
    const AV &p = a[ext == X_TV_RNUM], &n = a[1 + (ext == X_TV_RNUM)];
    const Obj *o = p.obj > 0 && p.lo == p.hi ? lookup(t.mem, p.obj) : nullptr;
    std::vector<unsigned char> v;
    for (int64_t i = 0; o && i < (int64_t)n.lo; i++) {
      AV b = readMem(o, (int64_t)p.lo + i, 1);
      if (!isConst(b)) notes.push_back("harness: a constant is not known");
      v.push_back((unsigned char)b.lo);
    }
    ret = avConst(ext == X_TV_RNEW ? rgNew(v) : rgNum((uint32_t)a[0].lo, v));
    return 0;
  }
  case X_TV_RVAR: ret = avConst(rgVar((uint32_t)a[0].lo)); return 0;
  case X_TV_ROP: // op, a, b
    if (!isConst(a[0]) || !isConst(a[1]) || !isConst(a[2])) notes.push_back("harness: a handle is not known");
    ret = avConst(rgOp((int)a[0].lo, (uint32_t)a[1].lo, (uint32_t)a[2].lo));
    return 0;
  case X_TV_RRULE: rgRule((uint32_t)a[0].lo, (uint32_t)a[1].lo); return 0;
  case X_TV_RSAME: { // a, b, name
    std::string nm = strAt(t.mem, a[2]);
    counters["equality_obligations"]++;
    if (!isConst(a[0]) || !isConst(a[1]) || !a[0].lo || !a[1].lo) report("VN_LOST", &x, nm + ": value not tracked", nm);
    else if (a[0].lo != a[1].lo)
      report("VN_DIFF", &x, nm + ": values differ" + (opt.verbose ? ": " + rgShow((uint32_t)a[0].lo) + " vs " + rgShow((uint32_t)a[1].lo) : ""), nm);
    return 0;
  }
  case X_TV_PVARS: { // p, words, word size, lo, hi
    Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookupW(t.mem, a[0].obj) : nullptr;
    if (!o) { notes.push_back("harness: bad variable range"); return 0; }
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) {
      AV v = avRange(a[3].lo, a[4].lo);
      v.sym = vnVar(a[3].lo, a[4].lo, (unsigned)a[2].lo * 8);
      writeMem(o, (int64_t)(a[0].lo + i * a[2].lo), (unsigned)a[2].lo, v);
    }
    return 0;
  }
  case X_TV_PVAL: { // p, words, word size, weights (int per word, in bits): number
    const Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    const Obj *q = a[3].obj > 0 && a[3].lo == a[3].hi ? lookup(t.mem, a[3].obj) : nullptr;
    uint32_t r = pvConst(0);
    if (!o || !q) { notes.push_back("harness: bad number"); return 0; }
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) {
      unsigned n = (unsigned)a[2].lo;
      r = pvShlAdd(r, vnOf(readMem(o, (int64_t)(a[0].lo + i * n), n), n * 8), (unsigned)readMem(q, (int64_t)a[3].lo + i * 4, 4).lo, n * 8);
    }
    ret = avConst(r);
    return 0;
  }
  case X_TV_PNUM: { // p, n: big-endian constant
    const Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    std::vector<unsigned char> v;
    for (int64_t i = 0; o && i < (int64_t)a[1].lo; i++) v.push_back((unsigned char)readMem(o, (int64_t)a[0].lo + i, 1).lo);
    ret = avConst(pvBytes(v));
    return 0;
  }
  case X_TV_PARITH: { // op, a, b
    ret = avConst(pvArith(a[0].lo == '+' ? OP_ADD : a[0].lo == '-' ? OP_SUB : OP_MUL, (uint32_t)a[1].lo, (uint32_t)a[2].lo));
    return 0;
  }
  case X_TV_PMAX: // number, greatest value: assumed
    pvDeclare((uint32_t)a[0].lo, pvConst(0), (uint32_t)a[1].lo);
    return 0;
  case X_TV_PFLOOR: // number, bits, bits of a word
    ret = avConst(pvQuot((uint32_t)a[0].lo, (unsigned)a[1].lo, (unsigned)a[2].lo));
    return 0;
  case X_TV_PSTORE: { // p, words, word size, number
    Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookupW(t.mem, a[0].obj) : nullptr;
    if (!o) { notes.push_back("harness: bad variable range"); return 0; }
    unsigned n = (unsigned)a[2].lo;
    for (int64_t i = 0; i < (int64_t)a[1].lo; i++) {
      u128 lo = 0, hi = maskOf(n * 8);
      uint32_t q = pvWord((uint32_t)a[3].lo, (unsigned)i * n * 8, n * 8);
      if (q) pvBounds(q, n * 8, lo, hi);
      AV v = avRange(lo, hi);
      v.sym = q;
      writeMem(o, (int64_t)(a[0].lo + i * n), n, v);
    }
    return 0;
  }
  case X_TV_PBELOW: { // number, bound, name
    std::string nm = strAt(t.mem, a[2]), why;
    counters["equality_obligations"]++;
    if (!a[0].lo) report("VN_LOST", &x, nm + ": not tracked", nm);
    else if (!pvBelow((uint32_t)a[0].lo, (uint32_t)a[1].lo, why)) report("VN_DIFF", &x, nm + ": " + why, nm);
    return 0;
  }
  case X_TV_PZERO: { // number, modulus (0: none), name
    std::string nm = strAt(t.mem, a[2]), why;
    counters["equality_obligations"]++;
    if (!a[0].lo) report("VN_LOST", &x, nm + ": not tracked", nm);
    else if (!pvIsZeroMod((uint32_t)a[0].lo, (uint32_t)a[1].lo, why)) report("VN_DIFF", &x, nm + ": " + (opt.verbose ? why : why.substr(0, why.find(':'))), nm);
    else counters["polynomial_terms"] += pvTerms((uint32_t)a[0].lo);
    return 0;
  }
  case X_TV_KNOWN: { // p, n
    const Obj *o = a[0].obj > 0 && a[0].lo == a[0].hi ? lookup(t.mem, a[0].obj) : nullptr;
    bool k = o && isConst(a[1]);
    for (int64_t i = 0; k && i < (int64_t)a[1].lo; i++) k = isConst(readMem(o, (int64_t)a[0].lo + i, 1));
    ret = avConst(k);
    return 0;
  }
  case X_GETPID: ret = avTop(32); return 0;
  // ---- harness vocabulary
  case X_TV_SECRET: case X_TV_UNKNOWN: case X_TV_LABEL: case X_TV_LABEL_EACH: case X_TV_DECLASSIFY: case X_TV_UNINIT: {
    const AV &p = a[0];
    Obj *o = p.obj > 0 && p.lo == p.hi ? lookupW(t.mem, p.obj) : nullptr;
    if (!o) { if (ext != X_TV_DECLASSIFY) notes.push_back("harness: bad pointer"); return 0; }
    int64_t off = (int64_t)p.lo, n = isConst(a[1]) ? (int64_t)a[1].lo : o->size - off;
    if (o->summ) { off = 0; n = 1; }
    else if (off + n > o->size) n = o->size - off;
    if (ext == X_TV_SECRET) fillMem(o, off, n, avTop(8, L_SECRET), o->summ);
    else if (ext == X_TV_UNKNOWN) fillMem(o, off, n, avTop(8), o->summ);
    else if (ext == X_TV_UNINIT) fillMem(o, off, n, avTop(8, L_UNINIT), o->summ);
    else if (ext == X_TV_LABEL) addLabels(o, off, n, (Labels)1 << (unsigned)a[2].lo, 0);
    else if (ext == X_TV_LABEL_EACH) { for (int64_t i = 0; i < n; i++) addLabels(o, off + i, 1, (Labels)1 << (unsigned)(a[2].lo + i), 0); }
    else { addLabels(o, off, n, 0, L_SECRET); counters["declassified"]++; }
    return 0;
  }
  case X_TV_ZERO: { doMemset(t, x, a[0], avConst(0), a[1], 0); return 0; }
  case X_TV_RANGE: ret = avRange(a[0].lo, a[1].lo); return 0;
  case X_TV_CHOICE: ret = avRange(a[0].lo, a[1].lo); return 0;
  case X_LABELVAL: ret = a[0]; ret.lab |= (Labels)1 << (unsigned)a[1].lo; return 0;
  case X_TV_NEWBUF: { // size (or -1), returns unknown-content buffer
    int64_t n = isConst(a[0]) ? (int64_t)a[0].lo : -1;
    AV p = heapAlloc(t, x, avConst((u128)(uint64_t)n), false);
    Obj *o = lookupW(t.mem, p.obj);
    fillMem(o, 0, o->summ ? 1 : o->size, avTop(8), false);
    if (o->summ) { o->pages[0]->cells[0].v = avTop(8); }
    ret = p;
    return 0;
  }
  case X_TV_EXPECT_INIT: {
    std::string nm = strAt(t.mem, a[2]);
    counters["init_obligations"]++;
    const Obj *o = a[0].obj > 0 ? lookup(t.mem, a[0].obj) : nullptr;
    if (!o) return 0;
    Labels l = labelsOf(o, (int64_t)a[0].lo, o->summ ? 1 : (int64_t)a[1].lo);
    if ((l & L_UNINIT) && opt.uninit) report(defUninit(l) ? "UNINIT_OUT" : "UNINIT_OUT_MAY", &x, nm + ": output contains uninitialised data", nm);
    return 0;
  }
  case X_TV_REQUIRE: case X_TV_FORBID: { // ptr, n, label lo, label hi, name: every label must/may not reach
    std::string nm = strAt(t.mem, a[4]);
    counters[ext == X_TV_REQUIRE ? "require_obligations" : "forbid_obligations"]++;
    const Obj *o = a[0].obj > 0 ? lookup(t.mem, a[0].obj) : nullptr;
    if (!o) return 0;
    int64_t n = o->summ ? 1 : (int64_t)a[1].lo;
    for (int64_t i = 0; i < n; i++) {
      Labels l = labelsOf(o, (int64_t)a[0].lo + i, 1);
      for (unsigned b = (unsigned)a[2].lo; b <= (unsigned)a[3].lo; b++) {
        bool has = (l >> b) & 1;
        if (ext == X_TV_REQUIRE && !has) { report("MISSING_DEP", &x, nm + ": output byte " + std::to_string(i) + " does not depend on input #" + std::to_string(b), nm); return 0; }
        if (ext == X_TV_FORBID && has) { report("FORBIDDEN_DEP", &x, nm + ": output byte " + std::to_string(i) + " may depend on input #" + std::to_string(b), nm); return 0; }
      }
    }
    return 0;
  }
  case X_TV_REQUIRE_VAL: { // value, lo, hi, name
    std::string nm = strAt(t.mem, a[3]);
    counters["require_obligations"]++;
    for (unsigned b = (unsigned)a[1].lo; b <= (unsigned)a[2].lo; b++)
      if (!((a[0].lab >> b) & 1)) { report("MISSING_DEP", &x, nm + ": result does not depend on input #" + std::to_string(b), nm + "#" + std::to_string(b)); }
    return 0;
  }
  case X_TV_ASSERT: {
    std::string nm = strAt(t.mem, a[1]);
    counters["assert_obligations"]++;
    if (!(a[0].obj == O_NONE && (a[0].lo <= a[0].hi ? a[0].lo > 0 : false))) report("ASSERT", &x, nm + ": not established, value " + show(a[0], 32), nm);
    return 0;
  }
  case X_TV_PHASE: {
    std::string s = strAt(t.mem, a[0]);
    t.mem.imp = curImp = false;
    curPhase = &*phaseNames.insert(s).first;
    if (opt.verbose) fprintf(stderr, "phase %s steps=%llu stack=%zu other=%zu\n", s.c_str(), (unsigned long long)steps, t.mem.stack.size(), t.mem.other.size());
    return 0;
  }
  case X_TV_DUMP: {
    std::string s = strAt(t.mem, a[2]);
    if (a[0].obj > 0) {
      const Obj *o = lookup(t.mem, a[0].obj);
      fprintf(stderr, "dump %s: obj %s size %lld\n", s.c_str(), o->info->name.c_str(), (long long)o->size);
      for (int64_t off = (int64_t)a[0].lo; off < (int64_t)(a[0].lo + a[1].lo) && off < o->size;) {
        const Page *p = o->pages[off / PG];
        for (auto &c : p->cells)
          if (c.off <= off % PG && off % PG < c.off + c.len) {
            fprintf(stderr, "  +%lld len %d es %d: %s\n", (long long)off, c.len, c.es, show(c.v, c.es * 8).c_str());
            off += c.off + c.len - off % PG;
            break;
          }
      }
    } else fprintf(stderr, "dump %s: %s\n", s.c_str(), show(a[0], 64).c_str());
    return 0;
  }
  default: {
    std::string nm = "?";
    if (auto *C = dyn_cast<CallInst>(x.I)) if (C->getCalledFunction()) nm = C->getCalledFunction()->getName().str();
    unmodelled[nm]++;
    // assume pointer arguments may be written with unknown bytes
    Labels l = 0;
    for (auto &v : a) l |= v.lab;
    for (auto &v : a)
      if (v.obj > 0) {
        Obj *o = lookupW(t.mem, v.obj);
        if (o && o->info && o->info->kind != OK_FUNC && !o->info->isConstant)
          fillMem(o, 0, o->summ ? 1 : o->size, avTop(8, l), true);
      }
    ret = avTop(w, l);
    return 0;
  }
  }
}

// ---- branch refinement ----------------------------------------------------
static bool refineVal(AV &v, int pred, const AV &o, unsigned w) {
  enum { EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
  if (v.obj != O_NONE) {
    if (o.obj == O_NONE && isConst(o) && o.lo == 0) {
      if (pred == EQ) {
        if (v.obj > 0) return false;
        if (v.obj != O_BOT) { Labels l = v.lab; v = avConst(0); v.lab = l; }
      } else if (pred == NE && v.obj < 0 && v.obj != O_BOT) {
        std::vector<PEnt> es = ptrSet(v);
        es.erase(std::remove_if(es.begin(), es.end(), [](const PEnt &e) { return e.obj == O_NONE; }), es.end());
        if (es.empty()) return false;
        v = ptrFrom(es, v.lab);
      }
    }
    return true;
  }
  if (o.obj != O_NONE) return true;
  u128 m = maskOf(w);
  u128 ol, oh;
  ubounds(o, w, ol, oh);
  auto setU = [&](u128 lo, u128 hi) {
    u128 vl, vh;
    if (v.lo <= v.hi) { vl = v.lo; vh = v.hi; }
    else {
      // wrapped arc: intersect with [lo,hi] if that leaves a single piece
      bool hiPart = hi >= v.lo, loPart = lo <= v.hi;
      if (hiPart && loPart) return true;
      if (hiPart) { vl = v.lo; vh = m; }
      else if (loPart) { vl = 0; vh = v.hi; }
      else return false;
    }
    if (lo > vl) vl = lo;
    if (hi < vh) vh = hi;
    if (vl > vh) return false;
    uint64_t st = v.stride;
    if (st > 1 && v.lo <= v.hi && vl != v.lo) { u128 d = (vl - v.lo) % st; if (d) vl += st - d; if (vl > vh) return false; }
    if (st > 1 && v.lo <= v.hi) vh -= (vh - vl) % st;
    uint32_t s = v.sym;
    v = mk(vl, vh, v.lab, v.lo <= v.hi ? st : 1);
    v.sym = s;
    return true;
  };
  switch (pred) {
  case EQ:
    if (o.lo <= o.hi) return setU(o.lo, o.hi);
    return true;
  case NE:
    if (o.lo == o.hi) {
      if (v.lo == v.hi) return v.lo != o.lo;
      if (v.lo == o.lo) { u128 s = v.stride > 1 && v.lo <= v.hi ? v.stride : 1; v.lo = (v.lo + s) & m; }
      else if (v.hi == o.lo) { u128 s = v.stride > 1 && v.lo <= v.hi ? v.stride : 1; v.hi = (v.hi - s) & m; }
      if (v.lo == v.hi) v.stride = 0;
    }
    return true;
  case UGT: if (ol == m) return false; return setU(ol + 1, m);
  case UGE: return setU(ol, m);
  case ULT: if (oh == 0) return false; return setU(0, oh - 1);
  case ULE: return setU(0, oh);
  }
  i128 vl, vh, sl, sh;
  bool okv = sbounds(v, w, vl, vh);
  sbounds(o, w, sl, sh);
  i128 mn = sx((u128)1 << (w - 1), w), mx = (i128)(((u128)1 << (w - 1)) - 1);
  i128 lo = mn, hi = mx;
  switch (pred) {
  case SGT: if (sl == mx) return false; lo = sl + 1; break;
  case SGE: lo = sl; break;
  case SLT: if (sh == mn) return false; hi = sh - 1; break;
  case SLE: hi = sh; break;
  default: return true;
  }
  if (!okv && v.lo <= v.hi) { /* straddles the sign boundary as unsigned */ }
  if (vl < lo) vl = lo;
  if (vh > hi) vh = hi;
  if (vl > vh) return false;
  if (!okv) {
    // v is an arc containing the sign boundary; only intersect when v is full
    if (!isFull(v, w) && !(v.lo <= v.hi)) return true;
    if (v.lo <= v.hi) { // unsigned range [lo,hi] crossing 2^(w-1)
      u128 ub = (u128)1 << (w - 1);
      if (vl >= 0) { u128 a = v.lo, b = v.hi < ub - 1 ? v.hi : ub - 1; if ((u128)vl > a) a = (u128)vl; if ((u128)vh < b) b = (u128)vh; if (a > b) return false; v = mk(a, b, v.lab, 1); return true; }
      if (vh < 0) { u128 a = v.lo > ub ? v.lo : ub, b = v.hi; u128 tl = (u128)vl & m, th = (u128)vh & m; if (tl > a) a = tl; if (th < b) b = th; if (a > b) return false; v = mk(a, b, v.lab, 1); return true; }
      if (isFull(v, w)) { v = mkArc((u128)vl, (u128)vh, w, v.lab, 1); }
      return true;
    }
    return true;
  }
  uint64_t st = v.stride;
  uint32_t sy = v.sym;
  u128 nlo = (u128)vl & m, nhi = (u128)vh & m;
  if (st > 1 && v.lo <= v.hi && nlo >= v.lo && nlo <= nhi) {
    u128 d = (nlo - v.lo) % st;
    if (d) nlo += st - d;
    if (nlo > nhi) return false;
    nhi -= (nhi - nlo) % st;
  } else if (!(v.lo <= v.hi)) st = 1;
  v = mkArc(nlo, nhi, w, v.lab, st);
  v.sym = sy;
  return true;
}

static int negPred(int p) { return (int)CmpInst::getInversePredicate((CmpInst::Predicate)p); }
static int swapPred(int p) { return (int)CmpInst::getSwappedPredicate((CmpInst::Predicate)p); }

static bool refineSlot(FnCode *fc, Tok &t, int slot, int pred, const AV &o, unsigned w, int depth);

static bool refineCond(FnCode *fc, Tok &t, int slot, bool truth, int depth = 0) {
  if (slot < 0 || depth > 8) return true;
  AV &cv = t.env[slot];
  if (cv.obj == O_NONE) {
    if (isConst(cv)) { if ((cv.lo & 1) != (truth ? 1u : 0u)) return false; }
    else { Labels l = cv.lab; cv = avConst(truth); cv.lab = l; }
  }
  auto d = fc->slotDef[slot];
  if (d.first < 0) return true;
  const Ins &x = fc->blks[d.first].ins[d.second];
  switch (x.op) {
  case OP_ICMP: {
    int p = truth ? x.pred : negPred(x.pred);
    AV A = x.a >= 0 ? t.env[x.a] : fc->consts[~x.a];
    AV B = x.b >= 0 ? t.env[x.b] : fc->consts[~x.b];
    if (x.a >= 0 && !refineSlot(fc, t, x.a, p, B, x.w, depth)) return false;
    if (x.b >= 0 && !refineSlot(fc, t, x.b, swapPred(p), A, x.w, depth)) return false;
    return true;
  }
  case OP_XOR:
    if (x.w == 1 && x.b < 0 && fc->consts[~x.b].lo == 1) return refineCond(fc, t, x.a, !truth, depth + 1);
    return true;
  case OP_AND:
    if (x.w == 1 && truth) return refineCond(fc, t, x.a, true, depth + 1) && refineCond(fc, t, x.b, true, depth + 1);
    return true;
  case OP_OR:
    if (x.w == 1 && !truth) return refineCond(fc, t, x.a, false, depth + 1) && refineCond(fc, t, x.b, false, depth + 1);
    return true;
  case OP_COPY: return refineCond(fc, t, x.a, truth, depth + 1);
  default: return true;
  }
}

static bool refineSlot(FnCode *fc, Tok &t, int slot, int pred, const AV &o, unsigned w, int depth) {
  if (slot < 0 || depth > 8) return true;
  if (!refineVal(t.env[slot], pred, o, w)) return false;
  auto d = fc->slotDef[slot];
  if (d.first < 0) return true;
  const Ins &x = fc->blks[d.first].ins[d.second];
  const AV &v = t.env[slot];
  enum { EQ = 32, NE };
  switch (x.op) {
  case OP_ZEXT:
    if (x.a < 0) return true;
    if (x.w == 1 && o.obj == O_NONE && isConst(o)) {
      if (pred == NE && o.lo == 0) return refineCond(fc, t, x.a, true, depth + 1);
      if (pred == EQ && o.lo == 0) return refineCond(fc, t, x.a, false, depth + 1);
      if (pred == EQ && o.lo == 1) return refineCond(fc, t, x.a, true, depth + 1);
    }
    if (v.obj == O_NONE && v.lo <= v.hi && v.hi <= maskOf(x.w)) {
      AV lim = v;
      return refineSlot(fc, t, x.a, 35 /*UGE*/, avConst(lim.lo), x.w, depth + 1) &&
             refineSlot(fc, t, x.a, 37 /*ULE*/, avConst(lim.hi), x.w, depth + 1);
    }
    return true;
  case OP_SEXT:
    if (x.a < 0 || v.obj != O_NONE) return true;
    if (v.lo <= v.hi && v.hi <= (maskOf(x.w) >> 1))
      return refineSlot(fc, t, x.a, 39 /*SGE*/, avConst(v.lo), x.w, depth + 1) &&
             refineSlot(fc, t, x.a, 41 /*SLE*/, avConst(v.hi), x.w, depth + 1);
    return true;
  case OP_COPY: return x.a < 0 ? true : refineSlot(fc, t, x.a, pred, o, w, depth + 1);
  case OP_ADD:
  case OP_SUB: {
    // y = a +/- c with no wrap in the current range
    if (x.a < 0 || x.b >= 0 || v.obj != O_NONE) return true;
    AV c = fc->consts[~x.b];
    if (!isConst(c)) return true;
    AV inv = x.op == OP_ADD ? avSub(v, c, x.w) : avAdd(v, c, x.w);
    AV &av = t.env[x.a];
    if (av.obj != O_NONE || inv.obj != O_NONE) return true;
    if (inv.lo <= inv.hi && av.lo <= av.hi) {
      AV tmp = av;
      if (!refineVal(tmp, 35, avConst(inv.lo), x.w)) return true;
      if (!refineVal(tmp, 37, avConst(inv.hi), x.w)) return true;
      av = tmp;
    }
    return true;
  }
  default: return true;
  }
}

// ---------------------------------------------------------------------------
struct KeyLess {
  FnCode *fc;
  bool operator()(const Key &a, const Key &b) const {
    const auto &la = fc->blks[a.blk].loops, &lb = fc->blks[b.blk].loops;
    for (size_t i = 0;; i++) {
      bool ia = i < la.size(), ib = i < lb.size();
      if (ia && ib && la[i] == lb[i]) {
        int xa = a.nest[i].second, xb = b.nest[i].second;
        if (xa != xb) return xa < xb;
        continue;
      }
      int pa = ia ? fc->loops[la[i]].header : a.blk;
      int pb = ib ? fc->loops[lb[i]].header : b.blk;
      if (pa != pb) return pa < pb;
      break;
    }
    if (a.blk != b.blk) return a.blk < b.blk;
    if (a.ins != b.ins) return a.ins > b.ins; // mid-block tokens first
    return a.serial < b.serial;
  }
};

static Key keyOf(const Tok &t, int serial = 0) {
  Key k;
  k.blk = t.blk;
  k.ins = t.ins;
  k.serial = serial;
  for (auto &n : t.nest) k.nest.push_back({n.loop, n.iter});
  return k;
}

static bool joinEnv(FnCode *fc, std::vector<AV> &a, const std::vector<AV> &b, bool wid) {
  bool ch = false;
  for (int i = 0; i < fc->nslots; i++) {
    if (a[i] == b[i]) { if (a[i].sym != b[i].sym) a[i].sym = 0; continue; }
    AV r = join(a[i], b[i], fc->slotW[i] ? fc->slotW[i] : 64);
    if (wid) { Labels l = r.lab; r = widen(a[i], r, fc->slotW[i] ? fc->slotW[i] : 64); r.lab |= l; }
    if (r != a[i]) { r.sym = 0; a[i] = r; ch = true; }
  }
  return ch;
}
static bool leqEnv(FnCode *fc, const std::vector<AV> &a, const std::vector<AV> &b) {
  for (int i = 0; i < fc->nslots; i++)
    if (!leq(a[i], b[i], fc->slotW[i] ? fc->slotW[i] : 64)) return false;
  return true;
}
static void joinCtl(std::vector<Ctl> &a, const std::vector<Ctl> &b) {
  for (auto &c : b) {
    bool f = false;
    for (auto &d : a) if (d.ipdom == c.ipdom) { d.lab |= c.lab; f = true; }
    if (!f) a.push_back(c);
  }
}

// Field arithmetic: the exact integer result of every limb operation must be
// representable in the word.  A value is read as unsigned unless its arc
// passes through zero, in which case it is a two's complement difference.
static void intBounds(const AV &a, unsigned w, i128 &lo, i128 &hi, bool &big) {
  big = false;
  if (a.lo <= a.hi) {
    lo = (i128)a.lo; hi = (i128)a.hi;
    if (w >= 128 && (hi < 0)) big = true;
    return;
  }
  lo = sx(a.lo, w); hi = (i128)a.hi;
  if (lo >= 0) { lo = 0; hi = (i128)maskOf(w); if (w >= 128) big = true; }
}

static void wrapCheck(const Ins &x, const AV &a, const AV &b) {
  if (a.obj != O_NONE || b.obj != O_NONE) return;
  if (a.lo == a.hi && b.lo == b.hi) return;
  unsigned w = x.w;
  if (w < 32) return;
  u128 m = maskOf(w);
  counters["limb_ops"]++;
  i128 al, ah, bl, bh, lo = 0, hi = 0;
  bool ov = false;
  if (x.flags & F_NSW) {
    sbounds(a, w, al, ah);
    sbounds(b, w, bl, bh);
  } else if (x.op == OP_SHL) {
    u128 ul, uh;
    ubounds(a, w, ul, uh);
    if (b.lo != b.hi || b.lo >= w) ov = true;
    else ov = b.lo && (uh >> (w - (unsigned)b.lo)) != 0;
    if (ov) report("LIMB_OVERFLOW", &x, std::string("shifted limb may lose bits: ") + show(a, w) + " << " + show(b, w) + " at width " + std::to_string(w));
    return;
  } else {
    bool ba, bb;
    intBounds(a, w, al, ah, ba);
    intBounds(b, w, bl, bh, bb);
    if (ba || bb) { // full-width 128-bit values: plain unsigned test
      u128 r;
      if (x.op == OP_ADD) ov = __builtin_add_overflow((u128)ah, (u128)bh, &r);
      else if (x.op == OP_MUL) ov = __builtin_mul_overflow((u128)ah, (u128)bh, &r);
      else ov = a.lo < b.hi;
      if (ov) report("LIMB_OVERFLOW", &x, std::string("limb operation may wrap: ") + show(a, w) + " op " + show(b, w) + " at width " + std::to_string(w));
      return;
    }
  }
  switch (x.op) {
  case OP_ADD: ov = __builtin_add_overflow(al, bl, &lo) | __builtin_add_overflow(ah, bh, &hi); break;
  case OP_SUB: ov = __builtin_sub_overflow(al, bh, &lo) | __builtin_sub_overflow(ah, bl, &hi); break;
  case OP_MUL: {
    if (w >= 128 && al >= 0 && bl >= 0) {
      u128 q;
      if (__builtin_mul_overflow((u128)ah, (u128)bh, &q)) ov = true;
      break;
    }
    i128 c[4];
    ov = __builtin_mul_overflow(al, bl, &c[0]) | __builtin_mul_overflow(al, bh, &c[1]) | __builtin_mul_overflow(ah, bl, &c[2]) | __builtin_mul_overflow(ah, bh, &c[3]);
    lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3]));
    hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
    break;
  }
  default: return;
  }
  if (w >= 128 && ov && !(x.flags & F_NSW) && al >= 0 && bl >= 0 && x.op == OP_ADD) ov = false; // < 2^128
  if (!ov && w < 128) {
    i128 mn = sx((u128)1 << (w - 1), w), mx = (i128)(m >> 1);
    bool s = lo >= mn && hi <= mx, u = lo >= 0 && hi <= (i128)m;
    ov = (x.flags & F_NSW) ? !s : !(s || u);
  }
  if (ov) report("LIMB_OVERFLOW", &x, std::string("limb operation may wrap: ") + show(a, w) + (x.op == OP_ADD ? " + " : x.op == OP_SUB ? " - " : " * ") + show(b, w) + " at width " + std::to_string(w));
}

static void wrapUse(const Ins &x, const AV &a, const AV &b) {
  // a possibly negative limb consumed as unsigned
  if (a.obj != O_NONE || a.lo <= a.hi || x.w < 32) return;
  if (x.op == OP_LSHR && isConst(b) && b.lo == x.w - 1) return; // sign bit
  if (a.lo == maskOf(x.w) && a.hi == 0) return; // all-zeros / all-ones word
  report("LIMB_OVERFLOW", &x, "possibly negative limb used as unsigned: " + show(a, x.w));
}

struct Act {
  FnCode *fc;
  size_t base; // stack objects at entry
  std::map<Key, Tok, KeyLess> *wl = nullptr;
  std::map<Key, std::pair<Tok, int>, KeyLess> *inv = nullptr;
  std::map<Key, Tok, KeyLess> *last = nullptr;
  Results *out;
  int serial = 0;
  int satHere = 0;
  ~Act() { delete wl; delete inv; delete last; }
  void finish(Tok &t, const AV &ret, const Ins &x);
  bool enter(Tok &t, int from, int to); // false: token absorbed/dropped
  void push(Tok &&t);
  void run(Tok &&t0);
};

void Act::finish(Tok &t, const AV &ret0, const Ins &x) {
  AV ret = ret0;
  if (opt.implicit) { Labels l = 0; for (auto &c : t.ctl) l |= c.lab; ret.lab |= l; }
  if (!vnMode) ret.sym = 0;
  if (opt.zero)
    for (size_t i = base; i < t.mem.stack.size(); i++) zeroCheckObj(&x, t.mem.stack[i], "ZERO");
  while (t.mem.stack.size() > base) { objUnref(t.mem.stack.back()); t.mem.stack.pop_back(); }
  // group by return value
  int group = -1;
  for (size_t i = 0; i < out->size(); i++) {
    bool same = true;
    if (opt.partition && fc->retW && fc->retW <= 32) {
      bool z1 = isConst(ret) && ret.lo == 0, z2 = isConst((*out)[i].ret) && (*out)[i].ret.lo == 0;
      same = z1 == z2;
    }
    if (same) { group = (int)i; break; }
  }
  if (group < 0) { out->push_back({ret, std::move(t.mem)}); return; }
  Res &r = (*out)[group];
  Labels dl = 0;
  if (opt.implicit) for (auto &c : t.ctl) dl |= c.lab;
  AV old = r.ret;
  r.ret = join(r.ret, ret, fc->retW ? fc->retW : 64);
  if (old != ret) r.ret.lab |= dl;
  joinMem(r.mem, t.mem, false, dl);
}

bool Act::enter(Tok &t, int from, int to) {
  Blk &b = fc->blks[to];
  // phis
  if (!b.phis.empty()) {
    size_t pi = std::lower_bound(b.preds.begin(), b.preds.end(), from) - b.preds.begin();
    Labels ctl = 0;
    if (opt.implicit) for (auto &c : t.ctl) ctl |= c.lab;
    if (b.phis.size() == 1) {
      int s = b.phis[0].in[pi];
      AV v = s >= 0 ? t.env[s] : fc->consts[~s];
      v.lab |= ctl;
      t.env[b.phis[0].dst] = v;
    } else {
      AV tmp[64];
      std::vector<AV> big;
      AV *p = tmp;
      if (b.phis.size() > 64) { big.resize(b.phis.size()); p = big.data(); }
      for (size_t i = 0; i < b.phis.size(); i++) {
        int s = b.phis[i].in[pi];
        p[i] = s >= 0 ? t.env[s] : fc->consts[~s];
        p[i].lab |= ctl;
      }
      for (size_t i = 0; i < b.phis.size(); i++) t.env[b.phis[i].dst] = p[i];
    }
  }
  if (!t.ctl.empty())
    t.ctl.erase(std::remove_if(t.ctl.begin(), t.ctl.end(), [&](const Ctl &c) { return c.ipdom == to; }), t.ctl.end());
  // loop nest bookkeeping
  const auto &ln = b.loops;
  size_t common = 0;
  while (common < ln.size() && common < t.nest.size() && t.nest[common].loop == ln[common]) common++;
  bool back = b.headerOf >= 0 && common == ln.size() && fc->loops[b.headerOf].has[from];
  t.nest.resize(common);
  while (t.nest.size() < ln.size()) t.nest.push_back({ln[t.nest.size()], 0, 0});
  t.blk = to;
  t.ins = 0;
  if (b.headerOf >= 0 && !t.nest.empty()) {
    Nest &n = t.nest.back();
    if (back && n.iter != SAT) {
      n.iter++;
      if (n.unk > opt.unk || n.iter > 3000000) n.iter = SAT;
    }
    if (n.unk > 0) {
      // drop values that are dead here so that convergence is visible
      const auto &lv = liveAt(fc, to);
      for (int i = 0; i < fc->nslots; i++)
        if (!lv[i]) {
          bool phi = false;
          for (auto &p : b.phis) if (p.dst == i) phi = true;
          if (!phi) t.env[i] = avBot();
        }
      if (n.iter == SAT) {
        t.mem.imp = true;
        if (!inv) inv = new std::map<Key, std::pair<Tok, int>, KeyLess>(KeyLess{fc});
        Key k = keyOf(t);
        auto it = inv->find(k);
        if (it == inv->end()) {
          inv->emplace(k, std::make_pair(t, 0));
        } else {
          Tok &I = it->second.first;
          if (leqEnv(fc, t.env, I.env) && leqMem(t.mem, I.mem)) return false;
          int c = ++it->second.second;
          bool wid = c > 2;
          joinEnv(fc, I.env, t.env, wid);
          Labels dl = 0;
          if (opt.implicit) for (auto &q : t.ctl) dl |= q.lab;
          joinMem(I.mem, t.mem, wid, dl);
          joinCtl(I.ctl, t.ctl);
          if (c > 400) { report("ENGINE", nullptr, "loop did not stabilise in " + fc->name); return false; }
          Tok copy = I;
          copy.nest = t.nest;
          t = std::move(copy);
        }
      } else if (back) {
        if (!last) last = new std::map<Key, Tok, KeyLess>(KeyLess{fc});
        Key k = keyOf(t);
        k.nest.back().second = 0;
        auto it = last->find(k);
        if (it != last->end() && leqEnv(fc, t.env, it->second.env) && leqMem(t.mem, it->second.mem)) return false;
        if (it == last->end()) last->emplace(k, t);
        else it->second = t;
      }
    }
  }
  return true;
}

void Act::push(Tok &&t) {
  if (!wl) wl = new std::map<Key, Tok, KeyLess>(KeyLess{fc});
  Key k = keyOf(t, t.ins ? ++serial : 0);
  // paths that leave this block in different directions stay apart
  int sel = fc->blks[t.blk].sel;
  if (!t.ins && sel >= 0 && isConst(t.env[sel])) k.serial = -1 - (int)(t.env[sel].lo & 0xffffff);
  auto it = wl->find(k);
  if (it == wl->end()) { wl->emplace(std::move(k), std::move(t)); return; }
  Tok &o = it->second;
  Labels dl = 0;
  if (opt.implicit) { for (auto &c : t.ctl) dl |= c.lab; for (auto &c : o.ctl) dl |= c.lab; }
  joinEnv(fc, o.env, t.env, false);
  joinMem(o.mem, t.mem, false, dl);
  joinCtl(o.ctl, t.ctl);
  for (size_t i = 0; i < o.nest.size(); i++) o.nest[i].unk = std::max(o.nest[i].unk, t.nest[i].unk);
}

static void vnTail(const Ins &x, AV &r, const AV &A, const AV &B) {
  unsigned w = x.w;
  r.sym = 0;
  if (r.lo == r.hi) return;
  switch (x.op) {
  case OP_ZEXT: w = x.w2; r.sym = vnZext(A, x.w, w); break;
  case OP_SEXT: w = x.w2; r.sym = vnSext(A, x.w, w); break;
  case OP_TRUNC: w = x.w2; r.sym = vnTrunc(A, x.w, w); break;
  case OP_BSWAP: r.sym = vnBswap(A, w); break;
  case OP_CTPOP: if (uint32_t a = vnOf(A, w)) r.sym = vnOp(x.op, w, a, 0, 0); break;
  case OP_ICMP: {
    uint32_t a = vnOf(A, x.w), b = vnOf(B, x.w);
    w = 1;
    if (a && a == b) {
      bool t = x.pred == CmpInst::ICMP_EQ || x.pred == CmpInst::ICMP_UGE || x.pred == CmpInst::ICMP_ULE ||
               x.pred == CmpInst::ICMP_SGE || x.pred == CmpInst::ICMP_SLE;
      r.lo = r.hi = t;
      r.stride = 0;
    } else if (a && b && (x.pred == CmpInst::ICMP_EQ || x.pred == CmpInst::ICMP_NE) && vnDiffer(a, b, x.w)) {
      r.lo = r.hi = x.pred == CmpInst::ICMP_NE;
      r.stride = 0;
    } else if (polyMode) r.sym = pvCmp(x.pred, a, b, x.w);
    else if (a && b) r.sym = vnOp(x.op + 100 + x.pred, 1, a, b, 0);
    break;
  }
  default:
    if (x.op >= OP_ADD && x.op <= OP_SREM) r.sym = vnBin(x.op, A, B, w);
  }
  vnRefine(r, w);
}

#define VAL(o) ((o) >= 0 ? t.env[o] : fc->consts[~(o)])

void Act::run(Tok &&t0) {
  Tok t = std::move(t0);
  std::vector<AV> args;
next_token:
  for (;;) {
    Blk &b = fc->blks[t.blk];
    const Ins *ip = &b.ins[t.ins];
    curImp = t.mem.imp;
    for (;; ip++) {
      const Ins &x = *ip;
      steps++;
      AV r;
      switch (x.op) {
#define BIN(OPN, FN)                                                             \
  case OPN: {                                                                    \
    const AV &A = VAL(x.a), &B = VAL(x.b);                                       \
    if (opt.wrap && (x.flags & F_FIELD)) wrapCheck(x, A, B);                     \
    r = FN(A, B, x.w);                                                           \
    break;                                                                       \
  }
        BIN(OP_ADD, avAdd)
        BIN(OP_MUL, avMul)
        BIN(OP_OR, avOr)
        BIN(OP_SHL, avShl)
      case OP_LSHR: {
        const AV &A = VAL(x.a), &B = VAL(x.b);
        if (opt.wrap && (x.flags & F_FIELD)) wrapUse(x, A, B);
        r = avLshr(A, B, x.w);
        break;
      }
        BIN(OP_ASHR, avAshr)
      case OP_SUB: {
        const AV &A = VAL(x.a), &B = VAL(x.b);
        if (x.a == x.b) { r = mk(0, 0, 0, 0); break; }
        if (opt.wrap && (x.flags & F_FIELD)) wrapCheck(x, A, B);
        r = avSub(A, B, x.w);
        break;
      }
      case OP_AND: r = avAnd(VAL(x.a), VAL(x.b), x.w); break;
      case OP_XOR: {
        if (x.a == x.b) { r = mk(0, 0, 0, 0); break; }
        const AV &A0 = VAL(x.a), &B0 = VAL(x.b);
        r = avXor(A0, B0, x.w);
        if (x.w >= 32 && x.a >= 0 && x.b >= 0 && r.lo != r.hi && r.sym == 0 && opt.wrap) {
          AV &A = t.env[x.a], &B = t.env[x.b];
          const Sym *sa = symtab.get(A.sym), *sb = symtab.get(B.sym);
          if ((!sa || sa->kind == SY_LEAF) && (!sb || sb->kind == SY_LEAF) && A.lo != A.hi && B.lo != B.hi) {
            if (!sa) A.sym = symtab.add({SY_LEAF, 0, 0, A.lo, A.hi});
            if (!sb) B.sym = symtab.add({SY_LEAF, 0, 0, B.lo, B.hi});
            r.sym = symtab.add({SY_XOR, A.sym, B.sym, 0, 0});
          }
        }
        break;
      }
      case OP_UDIV: case OP_UREM: case OP_SDIV: case OP_SREM: {
        const AV &A = VAL(x.a), &B = VAL(x.b);
        if (opt.ct && ((A.lab | B.lab) & L_SECRET)) report("CT_DIV", &x, "division or remainder of secret data");
        r = x.op == OP_UDIV ? avUdiv(A, B, x.w) : x.op == OP_UREM ? avUrem(A, B, x.w) : x.op == OP_SDIV ? avSdiv(A, B, x.w) : avSrem(A, B, x.w);
        break;
      }
      case OP_ICMP: {
        const AV &A = VAL(x.a), &B = VAL(x.b);
        int c = avIcmp(x.pred, A, B, x.w);
        r = c == 2 ? avRange(0, 1, A.lab | B.lab) : mk(c, c, A.lab | B.lab, 0);
        break;
      }
      case OP_SELECT: {
        const AV &C = VAL(x.a);
        if (opt.ct && (C.lab & L_SECRET)) report("CT_SELECT", &x, "conditional expression on secret data");
        if (isConst(C)) { r = C.lo ? VAL(x.b) : VAL(x.c); if (opt.noclear) r.lab |= C.lab; }
        else {
          r = join(VAL(x.b), VAL(x.c), x.w);
          r.lab |= C.lab;
          r.sym = 0;
          if (vnMode && r.obj == O_NONE) {
            uint32_t c = vnOf(C, 1), p = vnOf(VAL(x.b), x.w), q = vnOf(VAL(x.c), x.w);
            if (p && p == q) r.sym = p;
            else if (c && p && q) r.sym = vnOp(OP_SELECT, x.w, c, p, q);
            vnRefine(r, x.w);
          }
        }
        t.env[x.dst] = r;
        continue;
      }
      case OP_ZEXT:
        if (opt.wrap && (x.flags & F_FIELD)) wrapUse(x, VAL(x.a), VAL(x.a));
        r = avZext(VAL(x.a), x.w, x.w2);
        break;
      case OP_SEXT: r = avSext(VAL(x.a), x.w, x.w2); break;
      case OP_TRUNC: {
        const AV &A = VAL(x.a);
        r = avTrunc(A, x.w, x.w2);
        break;
      }
      case OP_COPY: case OP_FREEZE: t.env[x.dst] = VAL(x.a); continue;
      case OP_PTRTOINT: case OP_INTTOPTR: {
        AV v = VAL(x.a);
        if (v.obj == O_NONE || x.w == x.w2) t.env[x.dst] = v;
        else t.env[x.dst] = avTop(x.w2, v.lab);
        continue;
      }
      case OP_GEP: {
        const AV &P = VAL(x.a);
        if (x.gep.empty()) {
          if (P.obj > 0 && P.lo == P.hi) { r = P; r.lo = r.hi = (u128)(uint64_t)((int64_t)P.lo + x.imm); r.sym = 0; }
          else r = avAdd(P, avConst((u128)(uint64_t)x.imm), 64);
        } else {
          AV off = avConst((u128)(uint64_t)x.imm);
          for (auto &g : x.gep) {
            AV idx = VAL(g.first);
            if (x.w2 && fc->slotW[g.first >= 0 ? g.first : 0] != 64 && g.first >= 0) idx = avSext(idx, fc->slotW[g.first], 64);
            off = avAdd(off, g.second == 1 ? idx : avMul(idx, avConst((u128)(uint64_t)g.second), 64), 64);
          }
          r = avAdd(P, off, 64);
        }
        if (vnMode) {
          r.sym = 0;
          if (r.obj > 0 && r.lo != r.hi && P.obj > 0) {
            uint32_t id = P.lo == P.hi ? vnConst(P.lo, 64) : P.sym;
            id = vnAdd(id, vnConst((u128)(uint64_t)x.imm, 64), 64);
            for (auto &g : x.gep) {
              AV idx = VAL(g.first);
              unsigned sw = g.first >= 0 ? fc->slotW[g.first] : 64;
              uint32_t k = sw != 64 ? vnSext(idx, sw, 64) : vnOf(idx, 64);
              id = vnAdd(id, vnScale(k, (uint64_t)g.second, 64), 64);
            }
            r.sym = id;
          }
        }
        t.env[x.dst] = r;
        continue;
      }
      case OP_LOAD: {
        if (!doLoad(t, x, VAL(x.a), r)) goto path_end;
        if (opt.wrap && fc->hasXor && r.sym == 0 && r.obj == O_NONE && r.lo != r.hi && x.w >= 32 && x.w == x.imm * 8) {
          const AV &P = VAL(x.a);
          if (P.obj > 0 && P.lo == P.hi) {
            Obj *o = lookupW(t.mem, P.obj);
            if (o && !o->weak && !o->summ && !(o->info && o->info->isConstant)) {
              r.sym = symtab.add({SY_LEAF, 0, 0, r.lo, r.hi});
              writeMem(o, (int64_t)P.lo, (unsigned)x.imm, r);
            }
          }
        }
        t.env[x.dst] = r;
        continue;
      }
      case OP_STORE: {
        AV v = VAL(x.b);
        if (x.w < x.imm * 8 && v.obj == O_NONE) { uint32_t id = vnMode ? vnZext(v, x.w, (unsigned)x.imm * 8) : 0; v = avZext(v, x.w, (unsigned)x.imm * 8); if (vnMode) v.sym = id; }
        if (opt.implicit) v.lab |= ctlOf(t);
        if (x.imm > 16) { // aggregate store not expected
          unmodelled["wide store"]++;
          continue;
        }
        if (!storeTo(t, x, VAL(x.a), v, (unsigned)x.imm)) goto path_end;
        continue;
      }
      case OP_ALLOCA: {
        AV n = VAL(x.a);
        int64_t sz = isConst(n) ? (int64_t)n.lo * x.imm : -1;
        if (opt.ct && (n.lab & L_SECRET)) report("CT_CALL", &x, "stack allocation size depends on secret data");
        t.mem.stack.push_back(newObj(sz, x.info, avTop(8, L_UNINIT)));
        t.env[x.dst] = avPtr(ID_STACK + (int)t.mem.stack.size() - 1, 0);
        continue;
      }
      case OP_BSWAP: {
        const AV &A = VAL(x.a);
        if (isConst(A)) {
          u128 v = 0;
          for (unsigned i = 0; i < x.w / 8; i++) v |= ((A.lo >> (8 * i)) & 0xff) << (x.w - 8 - 8 * i);
          r = mk(v, v, A.lab, 0);
        } else r = avTop(x.w, A.lab);
        break;
      }
      case OP_CTPOP: {
        const AV &A = VAL(x.a);
        if (isConst(A)) { u128 v = __builtin_popcountll((uint64_t)A.lo) + __builtin_popcountll((uint64_t)(A.lo >> 64)); r = mk(v, v, A.lab, 0); }
        else r = avRange(0, x.w, A.lab);
        break;
      }
      case OP_CALL: {
        args.clear();
        for (int s : x.args) args.push_back(VAL(s));
        if (x.ext >= 0) {
          AV ret;
          int k = callExt(t, x, x.ext, args, ret, fc);
          if (k == 1) goto path_end;
          if (k == 0 && x.dst >= 0) { if (isConst(ret) && !opt.noclear) ret.lab = 0; t.env[x.dst] = ret; }
          continue;
        }
        std::vector<FnCode *> targets;
        if (x.callee) targets.push_back(x.callee);
        else {
          AV p = VAL(x.a);
          if (opt.ct && (p.lab & L_SECRET)) report("CT_BRANCH", &x, "indirect call target depends on secret data");
          std::vector<PEnt> es;
          ptrEntries(p, es);
          for (auto &e : es)
            if (e.obj > 0 && e.obj < (int)fnById.size() && fnById[e.obj]) targets.push_back(fnById[e.obj]);
          if (targets.empty()) {
            unmodelled["indirect call in " + fc->name]++;
            if (isConst(p) && p.lo == 0) goto path_end;
            if (x.dst >= 0) t.env[x.dst] = avTop(x.w ? x.w : 64);
            continue;
          }
        }
        Results all;
        callStack.push_back(&x);
        Labels savedCtl = baseCtl;
        if (opt.implicit) baseCtl = ctlOf(t);
        bool extDone = false;
        for (size_t k = 0; k < targets.size(); k++) {
          FnCode *tg = targets[k];
          auto en = extNames.find(tg->name);
          if (en != extNames.end() || tg->F->isDeclaration()) {
            AV ret;
            Tok *tp = &t;
            int rr = callExt(*tp, x, en != extNames.end() ? en->second : X_UNKNOWN, args, ret, fc);
            (void)rr;
            if (x.dst >= 0) t.env[x.dst] = ret;
            extDone = true;
            continue;
          }
          if (callStack.size() > 300) { report("ENGINE", &x, "call depth limit"); continue; }
          Mem m;
          if (k + 1 < targets.size()) m = t.mem;
          else m = std::move(t.mem);
          Results rs;
          execFn(tg, args, std::move(m), rs);
          for (auto &q : rs) {
            bool merged = false;
            if (!all.empty() && !(opt.partition && (x.flags & F_SPLIT))) {
              all[0].ret = join(all[0].ret, q.ret, x.w ? x.w : 64);
              joinMem(all[0].mem, q.mem, false, 0);
              merged = true;
            }
            if (!merged) all.push_back(std::move(q));
          }
        }
        baseCtl = savedCtl;
        callStack.pop_back();
        if (extDone && all.empty()) continue;
        if (all.empty()) goto path_end;
        for (size_t k = 1; k < all.size(); k++) {
          Tok u;
          u.blk = t.blk;
          u.ins = (int)(ip - &b.ins[0]) + 1;
          u.env = t.env;
          u.ctl = t.ctl;
          u.nest = t.nest;
          u.mem = std::move(all[k].mem);
          if (x.dst >= 0) u.env[x.dst] = all[k].ret;
          push(std::move(u));
        }
        t.mem = std::move(all[0].mem);
        curImp = t.mem.imp;
        if (x.dst >= 0) t.env[x.dst] = all[0].ret;
        continue;
      }
      case OP_BR: {
        int to = x.succ[0], from = t.blk;
        if (!enter(t, from, to)) goto path_end;
        if (wl && !wl->empty()) { push(std::move(t)); goto path_end; }
        goto next_block;
      }
      case OP_CONDBR: {
        const AV &C = VAL(x.a);
        int from = t.blk;
        if (opt.ct && (C.lab & L_SECRET)) report("CT_BRANCH", &x, "branch depends on secret data");
        if (opt.uninit && (C.lab & L_UNINIT)) report(defUninit(C.lab) ? "UNINIT_BRANCH" : "UNINIT_BRANCH_MAY", &x, "branch depends on uninitialised data");
        if (isConst(C)) {
          int to = x.succ[C.lo ? 0 : 1];
          if (opt.implicit && C.lab) { std::vector<Ctl> c{{b.ipdom, C.lab}}; joinCtl(t.ctl, c); }
          if (!enter(t, from, to)) goto path_end;
          if (wl && !wl->empty()) { push(std::move(t)); goto path_end; }
          goto next_block;
        }
        // unknown: mark loops that this branch may leave
        for (auto &n : t.nest) {
          LoopI &L = fc->loops[n.loop];
          if (!L.has[x.succ[0]] || !L.has[x.succ[1]]) n.unk++;
        }
        Labels cl = C.lab;
        Tok u;
        u = t;
        bool ok1 = refineCond(fc, t, x.a, true), ok2 = refineCond(fc, u, x.a, false);
        if (opt.implicit && cl) {
          std::vector<Ctl> c{{b.ipdom, cl}};
          joinCtl(t.ctl, c);
          joinCtl(u.ctl, c);
        }
        // run ahead through light blocks whose outcome is already decided
        auto settle = [&](Tok &k, int to) {
          int fr = from;
          for (int guard = 0; guard < 6; guard++) {
            if (!enter(k, fr, to)) return false;
            Blk &nb = fc->blks[to];
            if (!nb.light || nb.headerOf >= 0 || nb.ins.back().op != OP_CONDBR || nb.phis.empty()) return true;
            // evaluate the block on a scratch copy of the touched slots
            Tok s;
            s.env = k.env;
            bool good = true;
            for (auto &y : nb.ins) {
              AV q;
              auto V = [&](int o) -> const AV & { return o >= 0 ? s.env[o] : fc->consts[~o]; };
              switch (y.op) {
              case OP_ICMP: { int c = avIcmp(y.pred, V(y.a), V(y.b), y.w); Labels l = V(y.a).lab | V(y.b).lab; q = c == 2 ? avRange(0, 1, l) : mk(c, c, opt.noclear ? l : 0, 0); break; }
              case OP_ZEXT: q = avZext(V(y.a), y.w, y.w2); break;
              case OP_SEXT: q = avSext(V(y.a), y.w, y.w2); break;
              case OP_TRUNC: q = avTrunc(V(y.a), y.w, y.w2); break;
              case OP_COPY: q = V(y.a); break;
              case OP_XOR: q = avXor(V(y.a), V(y.b), y.w); break;
              case OP_AND: q = avAnd(V(y.a), V(y.b), y.w); break;
              case OP_CONDBR: continue;
              default: good = false;
              }
              if (!good) break;
              if (y.dst >= 0) s.env[y.dst] = q;
            }
            if (!good) return true;
            int co = nb.ins.back().a;
            const AV &cv = co >= 0 ? s.env[co] : fc->consts[~co];
            if (!isConst(cv)) return true;
            if (opt.implicit && cv.lab) { std::vector<Ctl> c{{nb.ipdom, cv.lab}}; joinCtl(k.ctl, c); }
            k.env = s.env;
            fr = to;
            to = nb.ins.back().succ[cv.lo ? 0 : 1];
          }
          return true;
        };
        if (ok1 && settle(t, x.succ[0])) push(std::move(t));
        if (ok2 && settle(u, x.succ[1])) push(std::move(u));
        goto path_end;
      }
      case OP_SWITCH: {
        const AV C = VAL(x.a);
        int from = t.blk;
        if (opt.ct && (C.lab & L_SECRET)) report("CT_BRANCH", &x, "switch depends on secret data");
        if (opt.uninit && (C.lab & L_UNINIT)) report(defUninit(C.lab) ? "UNINIT_BRANCH" : "UNINIT_BRANCH_MAY", &x, "switch depends on uninitialised data");
        if (isConst(C)) {
          int to = x.succ[0];
          for (auto &c : x.cases) if (c.first == C.lo) to = c.second;
          if (!enter(t, from, to)) goto path_end;
          if (wl && !wl->empty()) { push(std::move(t)); goto path_end; }
          goto next_block;
        }
        for (auto &n : t.nest) n.unk++;
        if (opt.implicit && C.lab) { std::vector<Ctl> c{{b.ipdom, C.lab}}; joinCtl(t.ctl, c); }
        std::vector<int> tos;
        for (auto &c : x.cases) {
          Tok u = t;
          if (x.a >= 0 && !refineSlot(fc, u, x.a, 32, avConst(c.first), x.w, 0)) continue;
          if (enter(u, from, c.second)) push(std::move(u));
        }
        bool feasible = true;
        Tok u = t;
        for (auto &c : x.cases) if (x.a >= 0 && !refineSlot(fc, u, x.a, 33, avConst(c.first), x.w, 0)) feasible = false;
        if (feasible && enter(u, from, x.succ[0])) push(std::move(u));
        goto path_end;
      }
      case OP_RET: {
        AV ret = x.a == INT_MIN ? avConst(0) : VAL(x.a);
        finish(t, ret, x);
        goto path_end;
      }
      case OP_UNREACHABLE: goto path_end;
      case OP_NOP: continue;
      default: report("ENGINE", &x, "opcode"); continue;
      }
      // common tail for scalar results
      if (vnMode && r.obj == O_NONE) vnTail(x, r, VAL(x.a), x.op >= OP_ADD && x.op <= OP_ICMP ? VAL(x.b) : VAL(x.a));
      if (r.lo == r.hi && r.obj == O_NONE) { if (!opt.noclear) r.lab = 0; }
      else if (r.hi == 0 && r.lo == maskOf(x.op == OP_ZEXT || x.op == OP_SEXT || x.op == OP_TRUNC ? x.w2 : x.w) && r.sym == 0 && r.obj == O_NONE && opt.wrap)
        r.sym = symtab.add({SY_MASK, 0, 0, 0, 0});
      t.env[x.dst] = r;
    }
  next_block:;
    if ((++ticks & 1023) == 0) tick();
    if (opt.maxSteps && steps > opt.maxSteps) { report("ENGINE", nullptr, "step limit"); exit(3); }
  }
path_end:
  if (wl && !wl->empty()) {
    auto it = wl->begin();
    t = std::move(it->second);
    wl->erase(it);
    goto next_token;
  }
}

static uint64_t depthMax = 0;
static void execFn(FnCode *fc, const std::vector<AV> &args, Mem &&mem, Results &out) {
  ensure(fc);
  fc->visits++;
  fnStack.push_back(fc);
  if (fnStack.size() > depthMax) depthMax = fnStack.size();
  Act act;
  act.fc = fc;
  act.base = mem.stack.size();
  act.out = &out;
  Tok t;
  t.env.assign(fc->nslots, avBot());
  for (size_t i = 0; i < args.size() && i < (size_t)fc->F->arg_size(); i++) t.env[i] = args[i];
  t.mem = std::move(mem);
  const Blk &b = fc->blks[0];
  for (int l : b.loops) t.nest.push_back({l, 0, 0});
  act.run(std::move(t));
  fnStack.pop_back();
}

// ---------------------------------------------------------------------------
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

static void onTerm(int) {
  for (auto *f : fnStack) fprintf(stderr, "  in %s (visits %llu)\n", f->name.c_str(), (unsigned long long)f->visits);
  _exit(5);
}

static std::vector<std::string> entries;
static std::string outPath;
static std::chrono::steady_clock::time_point t0;

static void emit() {
  FILE *fo = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
  double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  fprintf(fo, "{\"entries\":[");
  for (size_t i = 0; i < entries.size(); i++) fprintf(fo, "%s\"%s\"", i ? "," : "", entries[i].c_str());
  fprintf(fo, "],\"steps\":%llu,\"secs\":%.2f,\"functions\":[", (unsigned long long)steps, secs);
  bool first = true;
  for (auto &kv : fnOf)
    if (kv.second->visits) { fprintf(fo, "%s\"%s\"", first ? "" : ",", kv.second->name.c_str()); first = false; }
  fprintf(fo, "],\"counters\":{");
  first = true;
  for (auto &c : counters) { fprintf(fo, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(fo, "},\"unmodelled\":{");
  first = true;
  for (auto &c : unmodelled) { fprintf(fo, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(fo, "},\"notes\":[");
  first = true;
  for (auto &n : notes) { fprintf(fo, "%s\"%s\"", first ? "" : ",", jesc(n).c_str()); first = false; }
  fprintf(fo, "],\"phases\":[");
  first = true;
  for (auto &n : phaseNames) { fprintf(fo, "%s\"%s\"", first ? "" : ",", jesc(n).c_str()); first = false; }
  fprintf(fo, "],\"reports\":[");
  first = true;
  for (auto &r : reports) {
    fprintf(fo, "%s\n{\"kind\":\"%s\",\"file\":\"%s\",\"line\":%d,\"func\":\"%s\",\"var\":\"%s\",\"detail\":\"%s\",\"stack\":\"%s\"}", first ? "" : ",", r.kind.c_str(), jesc(r.file).c_str(), r.line, jesc(r.func).c_str(), jesc(r.var).c_str(), jesc(r.detail).c_str(), jesc(r.stack).c_str());
    first = false;
  }
  fprintf(fo, "]}\n");
  if (fo != stdout) fclose(fo);
}

// Called now and then: gives up when the time budget is spent, or soon after a
// report of a kind the caller asked to stop for.
static void tick() {
  double now = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static double hit = 0;
  if (!hit && !opt.stop.empty())
    for (auto &r : reports)
      if (opt.stop.count(r.kind)) { hit = now; break; }
  bool late = opt.secs && now > opt.secs;
  if (!late && !(hit && now > hit + opt.grace)) return;
  notes.push_back(late ? "time budget spent" : "stopped after a report");
  emit();
  _exit(0);
}

int aiMain(Module &M, int argc, char **argv) {
  signal(SIGTERM, onTerm);
  DL = &M.getDataLayout();
  fnById.resize(1, nullptr);
  for (int i = 0; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--ct") opt.ct = true;
    else if (a == "--uninit") opt.uninit = true;
    else if (a == "--oob") opt.oob = true;
    else if (a == "--wrap") { opt.wrap = true; joinUnsigned = true; }
    else if (a == "--zero") opt.zero = true;
    else if (a == "--implicit") { opt.implicit = true; opt.noclear = true; }
    else if (a == "--explicit") opt.noclear = true;
    else if (a == "--vn") vnMode = true;
    else if (a == "--poly") { vnMode = true; polyMode = true; }
    else if (a == "--vnbits") { vnMode = true; vnUnit = 1; }
    else if (a.rfind("--xorcap=", 0) == 0) vnXorCap = (unsigned)atoi(a.c_str() + 9);
    else if (a == "--partition") opt.partition = true;
    else if (a == "-v") opt.verbose = true;
    else if (a.rfind("--unk=", 0) == 0) opt.unk = atoi(a.c_str() + 6);
    else if (a.rfind("--max=", 0) == 0) opt.maxSteps = strtoull(a.c_str() + 6, 0, 10);
    else if (a.rfind("--secs=", 0) == 0) opt.secs = atoi(a.c_str() + 7);
    else if (a.rfind("--grace=", 0) == 0) opt.grace = atoi(a.c_str() + 8);
    else if (a.rfind("--stop=", 0) == 0) {
      std::string t;
      for (char c : a.substr(7) + ",") if (c == ',') { opt.stop.insert(t); t.clear(); } else t += c;
    }
    else if (a.rfind("--out=", 0) == 0) outPath = a.substr(6);
    else entries.push_back(a);
  }
  t0 = std::chrono::steady_clock::now();
  for (auto &e : entries) {
    Function *F = M.getFunction(e);
    if (!F || F->isDeclaration()) { fprintf(stderr, "tvet: no entry %s\n", e.c_str()); return 4; }
    FnCode *&fc = fnOf[F];
    if (!fc) { fc = new FnCode; fc->F = F; fc->name = e; }
    Mem m;
    Results out;
    execFn(fc, {}, std::move(m), out);
    if (out.empty()) { fprintf(stderr, "tvet: entry %s has no terminating path\n", e.c_str()); notes.push_back("no terminating path in " + e); }
  }
  emit();
  return 0;
}
