// irx: reads LLVM bitcode produced by clang from one /repo translation unit
// (-O1 -disable-llvm-passes), makes a chosen set of API primitives opaque,
// inlines everything else, promotes memory to SSA with a fixed scalar pipeline
// and writes the resulting SSA form (CFG, dominators, loops) as JSON.  It never executes anything from the module.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <regex>
using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> OpaqueFile("opaque", cl::desc("file with one ERE per line on demangled names"));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<std::string> Root("root", cl::init("/repo"));
static cl::opt<std::string> Pipeline("pipeline", cl::init(""));
static cl::opt<bool> DumpIR("dump-ir", cl::init(false));
static cl::opt<bool> NoOpt("raw", cl::init(false));

static std::string dem(StringRef n) { return demangle(n.str()); }

struct Exporter {
  Function &F; LoopInfo &LI; DominatorTree &DT; PostDominatorTree &PDT;
  json::OStream &J;
  std::map<const Value *, int> id; std::map<const BasicBlock *, int> bid;

  void tyname(Type *T, raw_ostream &os) { T->print(os, false, true); }
  std::string ty(Type *T) { std::string s; raw_string_ostream os(s); tyname(T, os); return os.str(); }

  json::Value loc(const DebugLoc &DL) {
    if (!DL) return nullptr;
    json::Array a;
    DILocation *L = DL.get();
    // innermost .. outermost : [file,line,function]
    int n = 0;
    while (L && n++ < 12) {
      auto *SP = L->getScope()->getSubprogram();
      std::string ln = SP ? SP->getLinkageName().str() : "";
      a.push_back(json::Array{L->getScope()->getFilename().str(), (int64_t)L->getLine(),
        ln.empty() ? (SP ? SP->getName().str() : "") : ln});
      L = L->getInlinedAt();
    }
    return json::Value(std::move(a));
  }
  json::Value constv(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() == 1) return json::Array{"ci", (int64_t)CI->getZExtValue(), 1};
      if (CI->getBitWidth() <= 64) return json::Array{"ci", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
      SmallString<40> s; CI->getValue().toStringSigned(s); return json::Array{"cbig", s.str().str()};
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<40> s; CF->getValueAPF().toString(s, 17);
      return json::Array{"cf", s.str().str()};
    }
    if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
    if (isa<PoisonValue>(C)) return json::Array{"poison"};
    if (isa<UndefValue>(C)) return json::Array{"undef"};
    if (auto *A = dyn_cast<GlobalAlias>(C)) return constv(A->getAliasee());
    if (auto *Fn = dyn_cast<Function>(C)) return json::Array{"fn", Fn->getName().str()};
    if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Array{"g", G->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GO->accumulateConstantOffset(F.getParent()->getDataLayout(), off))
          return json::Array{"gep", constv(cast<Constant>(GO->getPointerOperand())), off.getSExtValue()};
      }
      json::Array a{"ce", CE->getOpcodeName()};
      for (auto &o : CE->operands()) a.push_back(constv(cast<Constant>(o)));
      return json::Value(std::move(a));
    }
    if (C->isNullValue()) return json::Array{"zero", ty(C->getType())};
    if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
      json::Array a{"cds"}; 
      for (unsigned i = 0; i < CA->getNumElements() && i < 64; i++) a.push_back(constv(CA->getElementAsConstant(i)));
      return json::Value(std::move(a));
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a{"cagg"};
      for (unsigned i = 0; i < CA->getNumOperands() && i < 64; i++) a.push_back(constv(CA->getOperand(i)));
      return json::Value(std::move(a));
    }
    std::string s; raw_string_ostream os(s); C->printAsOperand(os, false); return json::Array{"c?", os.str()};
  }
  json::Value val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constv(C);
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"bb", bid[B]};
    auto it = id.find(V);
    if (it != id.end()) return it->second;
    if (isa<InlineAsm>(V)) return json::Array{"asm"};
    if (isa<MetadataAsValue>(V)) return json::Array{"md"};
    return json::Array{"?"};
  }
  void run() {
    int n = 0;
    for (auto &A : F.args()) id[&A] = n++;
    int b = 0;
    for (auto &B : F) { bid[&B] = b++; }
    for (auto &B : F) for (auto &I : B) id[&I] = n++;
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", dem(F.getName()));
    J.attribute("linkage", (int64_t)F.getLinkage());
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", SP->getFilename()); J.attribute("dir", SP->getDirectory()); J.attribute("line", (int64_t)SP->getLine());
    }
    J.attribute("ret", ty(F.getReturnType()));
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) {
        json::Object o{{"id", id[&A]}, {"ty", ty(A.getType())}, {"name", A.getName().str()}};
        if (A.hasStructRetAttr()) o["sret"] = ty(A.getParamStructRetType());
        if (A.hasByValAttr()) o["byval"] = true;
        J.value(json::Value(std::move(o)));
      }
    });
    J.attributeArray("blocks", [&] {
      for (auto &B : F) {
        J.objectBegin();
        J.attribute("id", bid[&B]);
        auto *N = DT.getNode(&B);
        J.attribute("idom", N && N->getIDom() ? bid[N->getIDom()->getBlock()] : -1);
        auto *P = PDT.getNode(&B);
        J.attribute("ipdom", P && P->getIDom() && P->getIDom()->getBlock() ? bid[P->getIDom()->getBlock()] : -1);
        auto *L = LI.getLoopFor(&B);
        J.attribute("loop", L ? bid[L->getHeader()] : -1);
        J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(bid[S]); });
        J.attributeArray("ins", [&] {
          for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
              if (II->isLifetimeStartOrEnd() || II->isAssumeLikeIntrinsic()) continue;
            }
            json::Array ops;
            std::string op = I.getOpcodeName();
            json::Object o;
            o["id"] = id[&I];
            if (auto *C = dyn_cast<CallBase>(&I)) {
              op = "call";
              if (auto *Fn = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) {
                o["callee"] = Fn->getName().str();
                if (Fn->isIntrinsic()) o["intr"] = Intrinsic::getBaseName(Fn->getIntrinsicID()).str();
                if (Fn->doesNotReturn() || C->doesNotReturn()) o["noret"] = true;
              } else { o["ind"] = val(C->getCalledOperand()); if (C->doesNotReturn()) o["noret"] = true; }
              int k = 0;
              for (auto &A : C->args()) { ops.push_back(val(A)); if (C->paramHasAttr(k, Attribute::StructRet)) o["sret"] = k; k++; }
            } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
              ops.push_back(val(Ld->getPointerOperand()));
              if (auto *T = Ld->getMetadata(LLVMContext::MD_tbaa)) if (T->isTBAAVtableAccess()) o["vt"] = true;
            } else if (auto *P = dyn_cast<PHINode>(&I)) {
              for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                ops.push_back(json::Array{bid[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
            } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
              op = "gep";
              APInt off(64, 0); auto &DL = F.getParent()->getDataLayout();
              MapVector<Value *, APInt> VO;
              if (G->collectOffset(DL, 64, VO, off)) {
                ops.push_back(val(G->getPointerOperand()));
                o["off"] = off.getSExtValue();
                json::Array vo; for (auto &kv : VO) vo.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
                o["vo"] = std::move(vo);
              } else for (auto &x : I.operands()) ops.push_back(val(x));
            } else if (auto *C = dyn_cast<CmpInst>(&I)) {
              o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
              for (auto &x : I.operands()) ops.push_back(val(x));
            } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
              o["aty"] = ty(A->getAllocatedType()); ops.push_back(val(A->getArraySize()));
            } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
              ops.push_back(val(Sw->getCondition())); ops.push_back(json::Array{"bb", bid[Sw->getDefaultDest()]});
              for (auto &c : Sw->cases()) { ops.push_back(constv(c.getCaseValue())); ops.push_back(json::Array{"bb", bid[c.getCaseSuccessor()]}); }
            } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
              for (auto &x : I.operands()) ops.push_back(val(x));
              for (auto i : E->indices()) ops.push_back(json::Array{"ix", (int64_t)i});
            } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
              for (auto &x : I.operands()) ops.push_back(val(x));
              for (auto i : E->indices()) ops.push_back(json::Array{"ix", (int64_t)i});
            } else {
              for (auto &x : I.operands()) ops.push_back(val(x));
              if (auto *S = dyn_cast<StoreInst>(&I)) o["vty"] = ty(S->getValueOperand()->getType());
            }
            o["op"] = op; o["ops"] = std::move(ops);
            if (!I.getType()->isVoidTy()) o["ty"] = ty(I.getType());
            if (I.getDebugLoc()) o["loc"] = loc(I.getDebugLoc());
            J.value(json::Value(std::move(o)));
          }
        });
        J.objectEnd();
      }
    });
    J.attributeArray("loops", [&] {
      for (auto *L : LI.getLoopsInPreorder()) {
        J.objectBegin();
        J.attribute("header", bid[L->getHeader()]);
        J.attribute("parent", L->getParentLoop() ? bid[L->getParentLoop()->getHeader()] : -1);
        J.attributeArray("blocks", [&] { for (auto *B : L->blocks()) J.value(bid[B]); });
        SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
        J.attributeArray("exiting", [&] { for (auto *B : ex) J.value(bid[B]); });
        J.objectEnd();
      }
    });
    J.objectEnd();
  }
};

// a global of this unit that nobody writes
static bool onlyRead(const Value *V) {
  for (const User *U : V->users()) {
    if (isa<LoadInst>(U)) continue;
    if (isa<GEPOperator>(U) && onlyRead(U)) continue;
    return false;
  }
  return true;
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  std::vector<std::regex> opq, kept, shown;   // "+ERE": called, not inlined, but the body is still exported; "=ERE": never opaque
  if (!OpaqueFile.empty()) {
    std::ifstream f(OpaqueFile); std::string l;
    if (!f) { errs() << "cannot read opaque list\n"; return 2; }
    while (std::getline(f, l)) if (!l.empty() && l[0] != '#') (l[0] == '+' ? kept : l[0] == '=' ? shown : opq).emplace_back(l[0] == '+' || l[0] == '=' ? l.substr(1) : l, std::regex::extended | std::regex::optimize);
  }
  std::set<std::string> hadBody; std::vector<std::pair<std::string,std::string>> aliases;
  for (auto I = M->alias_begin(); I != M->alias_end();) {
    GlobalAlias &A = *I++;
    auto *T = dyn_cast<Function>(A.getAliasee()->stripPointerCasts());
    if (!T) continue;
    aliases.emplace_back(A.getName().str(), T->getName().str());
    A.replaceAllUsesWith(T); A.eraseFromParent();
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeForSize);
    std::string d = dem(F.getName());
    bool o = false;
    for (auto &r : opq) if (std::regex_search(d, r)) { o = true; break; }
    for (auto &r : shown) if (std::regex_search(d, r)) { o = false; break; }
    for (auto &r : kept) if (std::regex_search(d, r)) { F.addFnAttr(Attribute::NoInline); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    if (o) { hadBody.insert(F.getName().str()); F.deleteBody(); F.setComdat(nullptr); }
  }
  if (!NoOpt) {
    // recursion: never force-inline members of a cycle
    std::set<Function *> rec;
    { CallGraph CG(*M);
      for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
        if (I.hasCycle()) {
          std::set<Function *> scc;
          for (auto *N : *I) if (N->getFunction()) scc.insert(N->getFunction());
          // file-local members whose calls all leave the file-local part of the cycle can be
          // inlined: every cycle still passes through one of the other members
          std::set<Function *> loc;
          for (auto *F : scc) if (F->hasLocalLinkage()) loc.insert(F);
          bool self = false;
          for (auto *F : loc) for (auto &BB : *F) for (auto &X : BB)
            if (auto *CB = dyn_cast<CallBase>(&X)) if (CB->getCalledFunction() && loc.count(CB->getCalledFunction())) self = true;
          if (!self) for (auto *F : loc) scc.erase(F);
          rec.insert(scc.begin(), scc.end());
        } }
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (!rec.count(&F) && !F.hasFnAttribute(Attribute::NoInline) && F.getName() != "main") F.addFnAttr(Attribute::AlwaysInline);
      if (F.hasAvailableExternallyLinkage()) {}
    }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string P = Pipeline.empty() ? std::string(
      "always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts>,instsimplify,sroa<modify-cfg>,early-cse<memssa>,instsimplify,adce,simplifycfg<no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts>,instsimplify,loop-simplify)")
      : std::string(Pipeline);
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  if (verifyModule(*M, &errs())) return 2;
  if (DumpIR) { M->print(outs(), nullptr); return 0; }
  std::error_code EC; raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
  J.objectBegin();
  J.attribute("source", M->getSourceFileName());
  J.attributeArray("functions", [&] {
    for (auto &F : *M) {
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
      auto *SP = F.getSubprogram();
      if (SP) {
        std::string fn = SP->getFilename().str();
        if (fn.rfind("/usr/", 0) == 0) continue;   // standard library instantiations
      }
      DominatorTree DT(F); PostDominatorTree PDT(F); LoopInfo LI(DT); 
      
      Exporter X{F, LI, DT, PDT, J, {}, {}}; X.run();
    }
  });
  J.attributeArray("aliases", [&] { for (auto &p : aliases) J.value(json::Array{p.first, p.second}); });
  J.attributeArray("decls", [&] { for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) {
    J.value(json::Array{F.getName().str(), dem(F.getName()), hadBody.count(F.getName().str()) > 0}); } });
  J.attributeArray("globals", [&] { for (auto &G : M->globals()) {
    json::Array a{G.getName().str(), dem(G.getName()), G.hasInitializer() && !G.isDeclaration(), G.isConstant()};
    if (G.hasInitializer() && (G.isConstant() || (G.hasLocalLinkage() && onlyRead(&G)))) {
      Function *F0 = nullptr; for (auto &F : *M) { F0 = &F; break; }
      if (F0) { 
        auto *CI = G.getInitializer();
        if (auto *CD = dyn_cast<ConstantDataArray>(CI); CD && CD->isCString()) a.push_back(json::Array{"str", json::fixUTF8(CD->getAsCString())});
        else { DominatorTree *d = nullptr; LoopInfo *l = nullptr; PostDominatorTree *p = nullptr;
          Exporter X{*F0, *l, *d, *p, J, {}, {}}; a.push_back(X.constv(CI)); }
      }
    }
    J.value(json::Value(std::move(a))); } });
  J.objectEnd();
  return 0;
}
