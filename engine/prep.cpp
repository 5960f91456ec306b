// Front-end pass: makes uninitialised locals explicit and promotes locals to registers.
#include "interp.hpp"
#include <llvm/IR/PassManager.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/UnifyFunctionExitNodes.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/Transforms/Scalar/LoopPassManager.h>
using namespace llvm;
void prepModule(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    std::vector<AllocaInst *> al;
    for (auto &B : F) for (auto &I : B) if (auto *A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) al.push_back(A);
    for (auto *A : al) {
      llvm::Type *t = A->getAllocatedType(); std::string n = "__uninit."; raw_string_ostream os(n); t->print(os);
      auto *FT = FunctionType::get(t, false); FunctionCallee c = M.getOrInsertFunction(os.str(), FT);
      IRBuilder<> b(A->getNextNode()); b.CreateStore(b.CreateCall(c), A);
    }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
  for (auto &F : M) if (!F.isDeclaration()) FPM.run(F, FAM);
}
