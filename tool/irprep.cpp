// irprep: link LLVM bitcode of the analysed translation units, inline every helper
// defined by the analysed tree into each function, simplify, and dump the resolved
// program (functions, CFG, calls with demangled callees, member-resolved address
// computations, class layouts, constant tables) as JSON for the analysis engine.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <regex>
#include <set>
using namespace llvm;
static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> LL("ll");
static cl::list<std::string> Roots("root");
static cl::opt<std::string> Boundary("boundary", cl::init("$^"));
static cl::opt<std::string> StdInline("stdinline", cl::init("$^"));
static cl::opt<std::string> DumpOnly("dump", cl::init(""));

static std::string fileOf(const DIFile *f) {
  if (!f) return "";
  std::string d = f->getFilename().str();
  if (d.empty() || d[0] != '/') d = f->getDirectory().str() + "/" + d;
  return d;
}
static std::string fileOf(const Function &F) {
  if (auto *SP = F.getSubprogram()) return fileOf(SP->getFile());
  return "";
}
static bool inRoots(const std::string &f) {
  for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
  return false;
}
// ---- class layouts from debug info -------------------------------------
struct Cls { const DICompositeType *T; };
static std::map<std::string, std::vector<const DICompositeType *>> Classes; // base name (no template args)
static std::string scopeName(const DIScope *S) {
  if (!S || isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string n = S->getName().str();
  std::string p;
  if (auto *T = dyn_cast<DIType>(S)) p = scopeName(T->getScope());
  else if (auto *N = dyn_cast<DINamespace>(S)) p = scopeName(N->getScope());
  else if (auto *SP = dyn_cast<DISubprogram>(S)) p = scopeName(SP->getScope());
  if (isa<DINamespace>(S) && (n.empty() || cast<DINamespace>(S)->getExportSymbols())) return p;
  return p.empty() ? n : p + "::" + n;
}
static std::string strip(std::string s) { // strip template args
  std::string r; int d = 0;
  for (char c : s) { if (c == '<') d++; else if (c == '>') d--; else if (!d) r += c; }
  return r;
}
static std::string typeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = typeName(D->getBaseType());
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return b + "*";
    case dwarf::DW_TAG_reference_type: return b + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
    case dwarf::DW_TAG_const_type: return "const " + b;
    case dwarf::DW_TAG_typedef: return scopeName(D);
    default: return b;
    }
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return scopeName(T);
}
static std::string lookupField(const std::string &base, uint64_t off, std::string &ty) {
  auto I = Classes.find(base);
  if (I == Classes.end()) return "";
  for (auto *T : I->second)
    for (auto *e : T->getElements()) {
      auto *d = dyn_cast<DIDerivedType>(e);
      if (!d || d->isStaticMember()) continue;
      if (d->getTag() == dwarf::DW_TAG_member && d->getOffsetInBits() == off * 8) { ty = typeName(d->getBaseType()); return d->getName().str(); }
      if (d->getTag() == dwarf::DW_TAG_inheritance && d->getOffsetInBits() == off * 8 && !(d->getFlags() & DINode::FlagVirtual)) { ty = typeName(d->getBaseType()); return "<" + scopeName(d->getBaseType()) + ">"; }
    }
  return "";
}
static std::string structBase(StructType *S) {
  if (!S->hasName()) return "?";
  std::string n = S->getName().str();
  for (const char *p : {"class.", "struct.", "union."}) if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
  static std::regex suf(R"((\.\d+)+$)");
  n = std::regex_replace(n, suf, "");
  static std::regex b(R"(\.base$)");
  n = std::regex_replace(n, b, "");
  return strip(n);
}
static void collectClasses(Module &M) {
  DebugInfoFinder DF; DF.processModule(M);
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (!C->isForwardDecl() && (C->getTag() == dwarf::DW_TAG_class_type || C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type)) {
        std::string n = scopeName(C);
        if (n.empty()) continue;
        Classes[strip(n)].push_back(C);
      }
}
// annotate struct GEPs with member names before linking merges isomorphic types
static void annotate(Module &M) {
  auto &DL = M.getDataLayout();
  for (auto &F : M) for (auto &I : instructions(F))
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      std::string path; Type *T = G->getSourceElementType(); bool first = true; bool ok = true;
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
        auto *CI = dyn_cast<ConstantInt>(*it);
        if (first) { first = false; if (!CI || !CI->isZero()) path += "[]"; continue; }
        if (auto *S = dyn_cast<StructType>(T)) {
          if (!CI) { ok = false; break; }
          unsigned k = CI->getZExtValue(); std::string b = structBase(S), ty;
          std::string f = lookupField(b, DL.getStructLayout(S)->getElementOffset(k), ty);
          if (f.empty()) f = "#" + std::to_string(k);
          if (!path.empty()) path += "|";
          path += b + "." + f;
          T = S->getElementType(k);
        } else if (auto *A = dyn_cast<ArrayType>(T)) { path += path.empty() ? "[]" : "|[]"; T = A->getElementType(); }
        else { ok = false; break; }
      }
      if (ok) G->setMetadata("vf", MDNode::get(M.getContext(), {MDString::get(M.getContext(), path)}));
    }
}
// ---- JSON dump -----------------------------------------------------------
static std::map<std::string, int> FileIdx; static std::vector<std::string> Files;
static int fidx(const std::string &f) { auto r = FileIdx.emplace(f, Files.size()); if (r.second) Files.push_back(f); return r.first->second; }
static std::string tstr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return s; }
struct Dumper {
  json::OStream &J; const DataLayout &DL; std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs;
  Dumper(json::OStream &J, const DataLayout &DL) : J(J), DL(DL) {}
  void op(const Value *V) {
    J.arrayBegin();
    if (auto *A = dyn_cast<MetadataAsValue>(V)) { (void)A; J.value("md"); }
    else if (isa<Instruction>(V) || isa<Argument>(V)) { J.value("v"); J.value(ids.at(V)); }
    else cst(V);
    J.arrayEnd();
  }
  void cst(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) { J.value("c"); if (C->getBitWidth() <= 64) J.value(C->getSExtValue()); else J.value(0); }
    else if (auto *C = dyn_cast<ConstantFP>(V)) { J.value("f"); J.value(C->isZero() ? 0.0 : 1.0); }
    else if (isa<ConstantPointerNull>(V)) J.value("null");
    else if (isa<UndefValue>(V)) J.value("undef");
    else if (auto *G = dyn_cast<GlobalAlias>(V)) { J.value("g"); J.value(G->getAliaseeObject()->getName()); }
    else if (auto *G = dyn_cast<GlobalValue>(V)) { J.value("g"); J.value(G->getName()); }
    else if (auto *G = dyn_cast<GEPOperator>(V)) {
      APInt off(64, 0); J.value("cgep"); op(G->getPointerOperand());
      if (G->accumulateConstantOffset(DL, off)) J.value(off.getSExtValue()); else J.value(-1);
    } else if (isa<ConstantAggregateZero>(V)) J.value("zero");
    else if (auto *E = dyn_cast<ConstantExpr>(V)) { J.value("cexpr"); J.value(E->getOpcodeName()); for (auto &o : E->operands()) op(o); }
    else if (auto *A = dyn_cast<ConstantAggregate>(V)) { J.value("agg"); for (auto &o : A->operands()) op(o); }
    else if (auto *D = dyn_cast<ConstantDataSequential>(V)) { J.value("data"); if (D->isString()) J.value(json::fixUTF8(D->isCString() ? D->getAsCString() : D->getAsString())); else J.value("?"); }
    else { J.value("k"); J.value(tstr(V->getType())); }
  }
  void loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc(); if (!L) return;
    const DILocation *best = L;
    // innermost location inside the analysed tree
    for (auto *p = L; p; p = p->getInlinedAt()) if (inRoots(fileOf(p->getFile()))) { best = p; break; }
    J.attributeBegin("l"); J.arrayBegin(); J.value(fidx(fileOf(best->getFile()))); J.value(best->getLine());
    J.value(best->getScope()->getSubprogram() ? best->getScope()->getSubprogram()->getName() : ""); J.arrayEnd(); J.attributeEnd();
  }
  void tbaa(const Instruction &I) {
    if (auto *N = I.getMetadata(LLVMContext::MD_tbaa)) if (N->getNumOperands() >= 3)
      if (auto *B = dyn_cast<MDNode>(N->getOperand(0))) if (auto *A = dyn_cast<MDNode>(N->getOperand(1))) {
        auto nm = [](MDNode *X) { if (X->getNumOperands()) if (auto *S = dyn_cast<MDString>(X->getOperand(0))) return S->getString().str(); return std::string("?"); };
        std::string bn = nm(B), an = nm(A); uint64_t off = mdconst::extract<ConstantInt>(N->getOperand(2))->getZExtValue();
        if (an == "vtable pointer") { J.attribute("tb", "vptr"); return; }
        if (bn.rfind("_ZTS", 0) == 0) {
          std::string d = demangle("_Z" + bn.substr(4)); d = demangle("_ZTS" + bn.substr(4));
          const char *pre = "typeinfo name for "; if (d.rfind(pre, 0) == 0) d = d.substr(strlen(pre));
          std::string ty, f = lookupField(strip(d), off, ty);
          J.attribute("tb", strip(d) + "." + (f.empty() ? "+" + std::to_string(off) : f));
        }
      }
  }
  void fn(Function &F) {
    int n = 0; for (auto &A : F.args()) ids[&A] = n++;
    int b = 0; for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    J.objectBegin();
    J.attribute("name", F.getName()); J.attribute("dem", json::fixUTF8(demangle(F.getName().str())));
    auto *SP = F.getSubprogram();
    J.attribute("file", fileOf(F)); J.attribute("line", SP ? (int)SP->getLine() : 0);
    J.attribute("nargs", (int)F.arg_size()); J.attribute("ret", tstr(F.getReturnType())); J.attribute("va", F.isVarArg());
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) { J.objectBegin(); J.attribute("n", A.getName()); J.attribute("t", tstr(A.getType())); if (A.hasStructRetAttr()) J.attribute("sret", true); if (A.hasByValAttr()) J.attribute("byval", true); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &B : F) {
      J.objectBegin(); J.attribute("n", B.getName()); J.attributeBegin("i"); J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue; }
        J.objectBegin(); J.attribute("id", ids[&I]); J.attribute("op", I.getOpcodeName());
        if (!I.getType()->isVoidTy()) J.attribute("t", tstr(I.getType()));
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          J.attributeBegin("callee"); op(CB->getCalledOperand()->stripPointerCasts()); J.attributeEnd();
          J.attributeBegin("o"); J.arrayBegin(); for (auto &a : CB->args()) op(a.get()); J.arrayEnd(); J.attributeEnd();
          J.attributeBegin("at"); J.arrayBegin(); for (auto &a : CB->args()) J.value(tstr(a->getType())); J.arrayEnd(); J.attributeEnd();
          if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", true);
          if (CB->doesNotThrow()) J.attribute("nt", true);
          if (auto *II = dyn_cast<InvokeInst>(CB)) { J.attribute("nd", bbs[II->getNormalDest()]); J.attribute("ud", bbs[II->getUnwindDest()]); }
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("o"); J.arrayBegin();
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { J.arrayBegin(); op(P->getIncomingValue(k)); J.value(bbs[P->getIncomingBlock(k)]); J.arrayEnd(); }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin(); if (Br->isConditional()) op(Br->getCondition()); J.arrayEnd(); J.attributeEnd();
          J.attributeBegin("s"); J.arrayBegin(); for (unsigned k = 0; k < Br->getNumSuccessors(); k++) J.value(bbs[Br->getSuccessor(k)]); J.arrayEnd(); J.attributeEnd();
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin(); op(S->getCondition()); J.arrayEnd(); J.attributeEnd();
          J.attribute("d", bbs[S->getDefaultDest()]);
          J.attributeBegin("cs"); J.arrayBegin(); for (auto &c : S->cases()) { J.arrayBegin(); J.value(c.getCaseValue()->getSExtValue()); J.value(bbs[c.getCaseSuccessor()]); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd();
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin(); for (auto &o : G->operands()) op(o.get()); J.arrayEnd(); J.attributeEnd();
          J.attribute("st", tstr(G->getSourceElementType()));
          J.attribute("es", (int64_t)(G->getSourceElementType()->isSized() ? DL.getTypeAllocSize(G->getSourceElementType()).getFixedValue() : 0));
          APInt off(64, 0); if (G->accumulateConstantOffset(DL, off)) J.attribute("off", off.getSExtValue());
          if (auto *md = G->getMetadata("vf")) J.attribute("vf", cast<MDString>(md->getOperand(0))->getString());
        } else {
          J.attributeBegin("o"); J.arrayBegin(); for (auto &o : I.operands()) op(o.get()); J.arrayEnd(); J.attributeEnd();
          if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
          if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("at", tstr(A->getAllocatedType())); J.attribute("n", A->getName()); }
          if (auto *L = dyn_cast<LandingPadInst>(&I)) { J.attribute("cleanup", L->isCleanup()); }
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J.attribute("ix", (int)E->getIndices()[0]); }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { J.attribute("ix", (int)E->getIndices()[0]); }
          if (isa<StoreInst>(I)) J.attribute("vt", tstr(I.getOperand(0)->getType()));
          if (isa<LoadInst>(I) || isa<StoreInst>(I)) tbaa(I);
        }
        loc(I);
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd(); J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd(); J.objectEnd();
  }
};
int main(int c, char **v) {
  cl::ParseCommandLineOptions(c, v);
  if (Roots.empty()) Roots.push_back("/repo/");
  LLVMContext C; SMDiagnostic E;
  auto M = std::make_unique<Module>("all", C); Linker L(*M);
  std::set<std::string> Keep;
  for (auto &i : Inputs) {
    auto m = parseIRFile(i, E, C);
    if (!m) { E.print("irprep", errs()); return 2; }
    Classes.clear(); collectClasses(*m); annotate(*m);
    if ((i.find("witness_w_jni") != std::string::npos || i.find("witness_w_arrays") != std::string::npos)) for (auto &F : *m) if (F.hasLinkOnceODRLinkage() && !F.isDeclaration() && inRoots(fileOf(F))) { Keep.insert(F.getName().str()); F.setLinkage(GlobalValue::WeakODRLinkage); }
    if (L.linkInModule(std::move(m))) return 2;
  }
  for (auto &n : Keep) if (auto *F = M->getFunction(n)) F->setLinkage(GlobalValue::WeakODRLinkage);
  Classes.clear(); collectClasses(*M);
  std::regex inl(StdInline.getValue()), bnd(Boundary.getValue());
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline);
    std::string f = fileOf(F); std::string d = demangle(F.getName().str());
    bool repo = inRoots(f);
    bool in;
    if (repo) in = !std::regex_search(d, bnd);
    else in = std::regex_search(f, inl) || std::regex_search(d, inl);
    if (F.isVarArg()) in = false;
    F.addFnAttr(in ? Attribute::AlwaysInline : Attribute::NoInline);
  }
  // call graph before inlining: who calls whom directly, and whose address is taken
  std::map<std::string, std::set<std::string>> CG; std::set<std::string> Addr;
  for (auto &F : *M) for (auto &U : F.uses()) {
    auto *CB = dyn_cast<CallBase>(U.getUser());
    if (CB && CB->isCallee(&U)) CG[CB->getFunction()->getName().str()].insert(F.getName().str());
    else if (!isa<BlockAddress>(U.getUser())) Addr.insert(F.getName().str());
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, "function(sroa,instsimplify,simplifycfg),always-inline,function(sroa,early-cse,instsimplify,simplifycfg)")) { errs() << toString(std::move(e)); return 2; }
  MPM.run(*M, MAM);
  if (!LL.empty()) { std::error_code EC; raw_fd_ostream O(LL, EC); M->print(O, nullptr); }
  std::error_code EC; raw_fd_ostream O(Out, EC); json::OStream J(O);
  std::regex dump(DumpOnly.empty() ? std::string(".") : DumpOnly.getValue());
  J.objectBegin();
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) {
    if (F.isDeclaration() || !inRoots(fileOf(F))) continue;
    if (!std::regex_search(demangle(F.getName().str()), dump)) continue;
    Dumper D(J, M->getDataLayout()); D.fn(F);
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) if (G.hasInitializer()) {
    if (G.getName().startswith("llvm.") || !G.isConstant()) continue;
    Dumper D(J, M->getDataLayout()); J.attributeBegin(G.getName()); D.op(G.getInitializer()); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("cg"); J.objectBegin();
  for (auto &kv : CG) { J.attributeBegin(kv.first); J.arrayBegin(); for (auto &x : kv.second) J.value(x); J.arrayEnd(); J.attributeEnd(); }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("addr"); J.arrayBegin(); for (auto &x : Addr) J.value(x); J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("dem"); J.objectBegin();
  for (auto &F : *M) J.attribute(F.getName(), json::fixUTF8(demangle(F.getName().str())));
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("classes"); J.objectBegin();
  std::set<std::string> seen;
  for (auto &kv : Classes) for (auto *T : kv.second) {
    if (!inRoots(fileOf(T->getFile()))) continue;
    std::string n = scopeName(T); if (!seen.insert(n).second) continue;
    J.attributeBegin(n); J.objectBegin(); J.attribute("size", (int64_t)T->getSizeInBits() / 8); J.attribute("union", T->getTag() == dwarf::DW_TAG_union_type);
    J.attribute("file", fileOf(T->getFile())); J.attribute("line", (int)T->getLine());
    J.attributeBegin("members"); J.arrayBegin();
    for (auto *e : T->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
      J.objectBegin(); bool b = d->getTag() == dwarf::DW_TAG_inheritance;
      J.attribute("k", b ? (d->getFlags() & DINode::FlagVirtual ? "vbase" : "base") : d->isStaticMember() ? "static" : "m");
      J.attribute("n", d->getName()); J.attribute("off", (int64_t)d->getOffsetInBits() / 8); J.attribute("size", (int64_t)d->getSizeInBits() / 8); J.attribute("ty", typeName(d->getBaseType())); J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto *e : T->getElements()) if (auto *d = dyn_cast<DISubprogram>(e)) {
      J.objectBegin(); J.attribute("n", d->getName()); J.attribute("ln", d->getLinkageName()); J.attribute("virt", d->getVirtuality() ? (int)d->getVirtualIndex() : -1); J.attribute("static", (bool)(d->getFlags() & DINode::FlagStaticMember)); J.attribute("line", (int)d->getLine()); 
      std::string sig; if (auto *ty = d->getType()) for (auto *x : ty->getTypeArray()) sig += (sig.empty() ? "" : ",") + typeName(x); J.attribute("sig", sig); J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("files"); J.arrayBegin(); for (auto &f : Files) J.value(f); J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
}
