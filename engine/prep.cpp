// prep: prepares a linked module. Routes environment calls to the env_ model, strips what is unreachable from the entries, and (for native replay) asks for address sanitizing.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/IR/IRBuilder.h>
#include <dlfcn.h>
#include <set>
#include <string>
using namespace llvm;
int main(int argc, char** argv) {
  std::string in = argv[1], out = argv[2]; bool native = false; std::set<std::string> entries;
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (a == "--native") native = true; else entries.insert(a); }
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx); if (!m) { err.print("prep", errs()); return 2; }
  // environment routing: a call of a declared X goes to env_X when the model defines it
  std::vector<std::pair<Function*, Function*>> rep;
  for (auto& f : *m) {
    if (!f.isDeclaration()) continue;
    std::string n = f.getName().str(); 
    if (n.rfind("__isoc23_", 0) == 0 || n.rfind("__isoc99_", 0) == 0) n = n.substr(9);
    if (n.size() > 2 && n.compare(n.size() - 2, 2, "64") == 0 && m->getFunction("env_" + n.substr(0, n.size() - 2))) n = n.substr(0, n.size() - 2);
    if (Function* e = m->getFunction("env_" + n)) if (!e->isDeclaration()) rep.push_back({&f, e});
  }
  for (auto& p : rep) p.first->replaceAllUsesWith(p.second);
  // inside the model itself env_X must not call env_X: it never calls the routed functions
  for (auto& f : *m) {
    f.removeFnAttr("stack-protector-buffer-size"); f.removeFnAttr(Attribute::StackProtect); f.removeFnAttr(Attribute::StackProtectStrong); f.removeFnAttr(Attribute::StackProtectReq);
    if (native && !f.isDeclaration()) { f.addFnAttr(Attribute::SanitizeAddress); }
  }
  PassBuilder PB; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
  PB.registerModuleAnalyses(mam); PB.registerCGSCCAnalyses(cam); PB.registerFunctionAnalyses(fam); PB.registerLoopAnalyses(lam); PB.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager mpm;
  mpm.addPass(InternalizePass([&](const GlobalValue& g) { return entries.count(g.getName().str()) > 0; }));
  mpm.addPass(GlobalDCEPass());
  mpm.run(*m, mam);
  if (native) {
    // what neither the linked sources nor the host libraries define: functions that abort, zeroed objects
    dlopen("libxml2.so.2", RTLD_NOW | RTLD_GLOBAL);
    for (auto& f : *m) {
      if (!f.isDeclaration() || f.isIntrinsic() || f.getName().starts_with("sym_") || f.use_empty() || dlsym(RTLD_DEFAULT, f.getName().str().c_str())) continue;
      auto* bb = BasicBlock::Create(ctx, "e", &f); IRBuilder<> b(bb); b.CreateCall(m->getOrInsertFunction("abort", FunctionType::get(b.getVoidTy(), false))); b.CreateUnreachable(); f.setLinkage(GlobalValue::ExternalLinkage); f.setComdat(nullptr);
    }
    std::vector<GlobalVariable*> gv; for (auto& g : m->globals()) if (g.isDeclaration() && !dlsym(RTLD_DEFAULT, g.getName().str().c_str())) gv.push_back(&g);
    for (auto* g : gv) {
      uint64_t n = g->getValueType()->isSized() ? m->getDataLayout().getTypeAllocSize(g->getValueType()) : 0; if (n < 64) n = 64;
      auto* t = ArrayType::get(Type::getInt8Ty(ctx), n); auto* r = new GlobalVariable(*m, t, false, GlobalValue::InternalLinkage, Constant::getNullValue(t), g->getName() + ".stub", nullptr, g->getThreadLocalMode()); r->setAlignment(Align(16)); g->replaceAllUsesWith(r);
    }
  }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os);
  return 0;
}
