#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Analysis/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <cstring>

using namespace llvm;
int aiMain(Module &M, int argc, char **argv);

static void runFn(Module &M, bool inl) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (inl) MPM.addPass(AlwaysInlinerPass(true));
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(true));
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(M, MAM);
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: tvet prep|ai file ...\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(argv[2], err, ctx);
  if (!M) { err.print("tvet", errs()); return 2; }
  if (!strcmp(argv[1], "prep")) {
    runFn(*M, false);
    // inline straight-line leaf helpers (carry/borrow/select primitives)
    for (int round = 0; round < 2; round++) {
      for (Function &F : *M) {
        if (F.isDeclaration() || !F.hasLocalLinkage() || F.isVarArg() || F.hasFnAttribute(Attribute::NoInline)) continue;
        if (F.size() != 1) continue;
        bool ok = true;
        int n = 0;
        for (Instruction &I : F.getEntryBlock()) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          n++;
          if (isa<AllocaInst>(I)) ok = false;
          if (auto *C = dyn_cast<CallInst>(&I)) if (!C->isInlineAsm() && !isa<IntrinsicInst>(C)) ok = false;
        }
        if (ok && n <= 40) F.addFnAttr(Attribute::AlwaysInline);
      }
      runFn(*M, true);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec);
    WriteBitcodeToFile(*M, os);
    return 0;
  }
  if (!strcmp(argv[1], "ai")) return aiMain(*M, argc - 3, argv + 3);
  return 2;
}
