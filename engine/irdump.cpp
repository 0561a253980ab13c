// Dumps the part of an LLVM bitcode module that is reachable from the given roots as JSON.
// Usage: irdump file.bc [--all] root-prefix...   (functions whose name starts with a prefix are roots)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include <set>
#include <map>
#include <vector>
#include <string>
#include <functional>
using namespace llvm;
using json::OStream;

static const DataLayout *DL;
static std::set<const GlobalValue *> wanted;
static std::vector<const GlobalValue *> work;
static void want(const GlobalValue *g) { if (wanted.insert(g).second) work.push_back(g); }

static std::string tyStr(Type *t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isSized()) {
    std::string s = t->isStructTy() ? "{" : t->isArrayTy() ? "[" : "<";
    return s + std::to_string(DL->getTypeAllocSize(t).getKnownMinValue()) + (t->isStructTy() ? "}" : t->isArrayTy() ? "]" : ">");
  }
  std::string r; raw_string_ostream o(r); t->print(o); return r;
}

// Functions of these library headers are small wrappers and are expanded at their calls.
static bool wrapperHeader(StringRef f) {
  for (const char *s : {"/atomic", "/bits/atomic_base.h", "/bits/move.h", "/bits/stl_pair.h", "/tuple", "/new", "/bits/stl_algobase.h",
                        "/bits/stl_function.h", "/bits/invoke.h", "/emmintrin.h", "/xmmintrin.h", "/type_traits", "/bits/utility.h"})
    if (f.ends_with(s)) return true;
  return false;
}
struct Wrap { std::string name; int line; const DIFile *file; };
static std::map<const Function *, Wrap> wraps;

// Expand every call of a non-recursive function that is not in the keep list, then promote locals to values.
static void expand(Module &M, const std::set<std::string> &keep, const std::vector<std::string> &roots) {
  auto isRoot = [&](const Function &F) { for (auto &r : roots) if (F.getName().starts_with(r)) return true; return false; };
  for (auto &F : M) if (!F.isDeclaration() && isRoot(F))
    for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *c = cb->getCalledFunction())
      if (auto *sp = c->getSubprogram()) if (!wraps.count(&F)) wraps[&F] = Wrap{sp->getName().str(), (int)sp->getLine(), sp->getFile()};
  CallGraph CG(M);
  std::set<const Function *> hashes;
  if (auto *H = M.getFunction("vf_hash"))
    for (auto &BB : *H) for (auto &I : BB)
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) hashes.insert(C);
  std::set<const Function *> rec;
  for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
    if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
  for (auto &F : M) {
    if (F.isDeclaration() || isRoot(F)) continue;
    auto *sp = F.getSubprogram();
    if (!sp) continue;
    StringRef file = sp->getFile()->getFilename();
    bool lib = file.starts_with("/usr");
    bool in = lib ? wrapperHeader(file) : true;
    if (F.getName().starts_with("_GLOBAL__") || F.getName().starts_with("__cxx_global")) in = false;
    std::string nm = sp->getName().str();
    bool kept = keep.count(nm) || keep.count(nm.substr(0, nm.find('<')));
    for (auto &k : keep) if (k[0] == '/' && file.contains(k)) kept = true;
    if (nm == "operator()") {
      // the hash function of the map, and comparators of names, are looked at on their own
      std::string d = demangle(F.getName().str());
      size_t at = d.rfind("operator()(");
      if (hashes.count(&F) || (!lib && at != std::string::npos && d.find("basic_string", at) != std::string::npos)) kept = true;
    }
    if (kept) in = false;
    if (rec.count(&F)) in = false;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (in) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline);
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
  MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(SCCPPass());
  FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).convertSwitchRangeToICmp(false).hoistCommonInsts(false).sinkCommonInsts(false).needCanonicalLoops(true).setSimplifyCondBranch(true).speculateBlocks(false).bonusInstThreshold(0)));
  FPM.addPass(DCEPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(M, MAM);
}

static std::map<const Value *, int> ids;
static json::Value val(const Value *v);

static json::Value konst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s; ci->getValue().toStringUnsigned(s);
    return json::Array{"c", std::string(s), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef"};
  if (auto *f = dyn_cast<Function>(c)) { want(f); return json::Array{"f", f->getName().str()}; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { want(g); return json::Array{"g", g->getName().str()}; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) { return konst(a->getAliasee()); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Array{"gep", val(gep->getPointerOperand()), off.getSExtValue()};
    }
    if (ce->isCast()) return json::Array{"cast", ce->getOpcodeName(), val(ce->getOperand(0))};
    if (ce->getNumOperands() == 2) return json::Array{"bin", ce->getOpcodeName(), val(ce->getOperand(0)), val(ce->getOperand(1))};
    return json::Array{"ce", ce->getOpcodeName()};
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementByteSize() * cd->getNumElements() > 4096) return json::Array{"blob"};
    if (cd->isString()) return json::Array{"str", json::fixUTF8(cd->getAsString())};
    json::Array a{"agg"};
    for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(konst(cd->getElementAsConstant(i)));
    return a;
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", (int64_t)DL->getTypeAllocSize(c->getType()).getKnownMinValue()};
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    // flattened with offsets
    json::Array a{"cagg"};
    if (auto *st = dyn_cast<StructType>(c->getType())) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++)
        a.push_back(json::Array{(int64_t)sl->getElementOffset(i), tyStr(ca->getOperand(i)->getType()), konst(ca->getOperand(i))});
    } else {
      Type *et = ca->getOperand(0)->getType(); int64_t es = DL->getTypeAllocSize(et).getKnownMinValue();
      for (unsigned i = 0; i < ca->getNumOperands(); i++)
        a.push_back(json::Array{(int64_t)i * es, tyStr(et), konst(ca->getOperand(i))});
    }
    return a;
  }
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; fp->getValueAPF().toString(s); return json::Array{"fp", std::string(s)};
  }
  return json::Array{"k?"};
}

static json::Value val(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return konst(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) { return json::Array{"asm", cast<InlineAsm>(v)->getAsmString(), cast<InlineAsm>(v)->getConstraintString()}; }
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"?"};
  return json::Array{"l", it->second};
}

static json::Value gepJson(const GEPOperator *g) {
  int64_t off = 0; json::Array var;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *ix = it.getOperand();
    if (auto *st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType()).getKnownMinValue();
      if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz;
      else var.push_back(json::Array{sz, val(ix)});
    }
  }
  return json::Array{off, std::move(var)};
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::vector<std::string> roots;
  std::set<std::string> keep; bool exp = false;
  for (int i = 2; i < argc; i++) {
    StringRef a = argv[i];
    if (a.consume_front("--expand-except=")) { exp = true; SmallVector<StringRef> v; a.split(v, ','); for (auto x : v) keep.insert(x.str()); }
    else roots.push_back(argv[i]);
  }
  if (exp) expand(*M, keep, roots);
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    for (auto &r : roots) if (f.getName().starts_with(r)) want(&f);
  }
  for (auto &g : M->globals()) for (auto &r : roots) if (g.getName().starts_with(r)) want(&g);
  // global constructors
  json::Array ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &op : ca->operands())
          if (auto *cs = dyn_cast<ConstantStruct>(op))
            if (auto *f = dyn_cast<Function>(cs->getOperand(1))) { want(f); ctors.push_back(f->getName().str()); }
  json::Object funcs, globals;
  std::vector<std::string> files; std::map<std::string, int> fileIdx;
  auto fileOf = [&](const DIFile *f) {
    std::string n = f ? (f->getFilename().starts_with("/") ? f->getFilename().str() : (f->getDirectory() + "/" + f->getFilename()).str()) : "";
    auto it = fileIdx.find(n); if (it != fileIdx.end()) return it->second;
    int k = files.size(); files.push_back(n); fileIdx[n] = k; return k;
  };
  while (!work.empty()) {
    const GlobalValue *gv = work.back(); work.pop_back();
    if (auto *g = dyn_cast<GlobalVariable>(gv)) {
      json::Object o;
      o["ty"] = tyStr(g->getValueType()); o["size"] = (int64_t)(g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getKnownMinValue() : 0);
      o["const"] = g->isConstant(); o["dem"] = demangle(g->getName().str()); o["tls"] = g->isThreadLocal();
      if (g->hasInitializer() ) o["init"] = konst(g->getInitializer());
      globals[g->getName().str()] = std::move(o);
      continue;
    }
    auto *F = dyn_cast<Function>(gv); if (!F) continue;
    json::Object fo;
    fo["dem"] = demangle(F->getName().str());
    fo["ret"] = tyStr(F->getReturnType());
    fo["nounwind"] = F->doesNotThrow(); fo["noreturn"] = F->doesNotReturn();
    if (wraps.count(F)) { auto &w = wraps[F]; fo["wraps"] = json::Array{w.name, (int64_t)w.line, fileOf(w.file)}; }
    if (auto *sp = F->getSubprogram()) { fo["line"] = (int64_t)sp->getLine(); fo["file"] = fileOf(sp->getFile()); fo["name"] = sp->getName().str(); }
    ids.clear(); int n = 0;
    json::Array args;
    for (auto &a : F->args()) { ids[&a] = n++; args.push_back(json::Array{tyStr(a.getType()), a.getName().str(), a.hasStructRetAttr(), a.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getKnownMinValue() : (int64_t)0}); }
    fo["args"] = std::move(args);
    if (F->isDeclaration()) { funcs[F->getName().str()] = std::move(fo); continue; }
    std::map<const BasicBlock *, int> bid; int nb = 0;
    for (auto &b : *F) { bid[&b] = nb++; for (auto &i : b) ids[&i] = n++; }
    fo["nvals"] = n;
    json::Array blocks;
    for (auto &b : *F) {
      json::Array bl;
      for (auto &I : b) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["i"] = ids[&I];
        std::string op = I.getOpcodeName();
        o["t"] = tyStr(I.getType());
        if (auto &dl = I.getDebugLoc()) {
          o["ln"] = (int64_t)dl.getLine();
          auto *sc = cast<DILocation>(dl.get())->getScope();
          int fi = fileOf(sc->getFile());
          o["fl"] = fi;
          if (auto *ia = dl->getInlinedAt()) {
            o["sp"] = dl->getScope()->getSubprogram()->getName().str();
            json::Array ch;
            for (; ia; ia = ia->getInlinedAt()) ch.push_back(json::Array{fileOf(ia->getFile()), (int64_t)ia->getLine(), ia->getScope()->getSubprogram()->getName().str()});
            o["ia"] = std::move(ch);
          }
        }
        json::Array ops;
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(val(g->getPointerOperand())); o["gep"] = gepJson(cast<GEPOperator>(g));
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) in.push_back(json::Array{val(p->getIncomingValue(i)), bid[p->getIncomingBlock(i)]});
          o["in"] = std::move(in);
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) ops.push_back(val(br->getCondition()));
          json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bid[br->getSuccessor(k)]); o["succ"] = std::move(s);
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(val(sw->getCondition()));
          json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{konst(c.getCaseValue()), bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["succ"] = json::Array{bid[sw->getDefaultDest()]};
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          for (auto &a : cb->args()) ops.push_back(val(a.get()));
          o["callee"] = val(cb->getCalledOperand());
          { json::Array ts; for (auto &a : cb->args()) ts.push_back(tyStr(a->getType())); o["at"] = std::move(ts); }
          o["nounwind"] = cb->doesNotThrow();
          if (cb->doesNotReturn()) o["noreturn"] = true;
          if (auto *iv = dyn_cast<InvokeInst>(&I)) o["succ"] = json::Array{bid[iv->getNormalDest()], bid[iv->getUnwindDest()]};
          { json::Array bv; unsigned k = 0; for (auto &a : cb->args()) { (void)a; if (cb->isByValArgument(k)) bv.push_back((int64_t)k); k++; } if (!bv.empty()) o["byval"] = std::move(bv); }
        } else {
          for (auto &x : I.operands()) if (!isa<BasicBlock>(x.get())) ops.push_back(val(x.get()));
          if (auto *c = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            o["ct"] = tyStr(c->getOperand(0)->getType());
          }
          if (auto *l = dyn_cast<LoadInst>(&I)) { o["atomic"] = (int64_t)l->getOrdering(); o["vol"] = l->isVolatile(); }
          if (auto *s = dyn_cast<StoreInst>(&I)) { o["atomic"] = (int64_t)s->getOrdering(); o["vt"] = tyStr(s->getValueOperand()->getType()); }
          if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { o["weak"] = x->isWeak(); o["atomic"] = (int64_t)x->getSuccessOrdering(); o["vt"] = tyStr(x->getNewValOperand()->getType()); }
          if (auto *x = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str(); o["vt"] = tyStr(x->getValOperand()->getType()); }
          if (auto *x = dyn_cast<AllocaInst>(&I)) { o["asz"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getKnownMinValue(); o["nm"] = x->getName().str(); }
          if (auto *x = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto k : x->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a); }
          if (auto *x = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto k : x->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a); }
          if (auto *x = dyn_cast<LandingPadInst>(&I)) {
            json::Array cl; for (unsigned k = 0; k < x->getNumClauses(); k++) cl.push_back(json::Array{x->isCatch(k) ? "catch" : "filter", konst(x->getClause(k))});
            o["clauses"] = std::move(cl); o["cleanup"] = x->isCleanup(); ops = json::Array{};
          }
          if (auto *x = dyn_cast<CastInst>(&I)) { o["ft"] = tyStr(x->getSrcTy()); }
        }
        o["op"] = op;
        if (!ops.empty()) o["o"] = std::move(ops);
        bl.push_back(std::move(o));
      }
      blocks.push_back(std::move(bl));
    }
    fo["blocks"] = std::move(blocks);
    funcs[F->getName().str()] = std::move(fo);
  }
  json::Array fl; for (auto &f : files) fl.push_back(f);
  json::Object top;
  top["functions"] = std::move(funcs); top["globals"] = std::move(globals); top["ctors"] = std::move(ctors); top["files"] = std::move(fl);
  outs() << json::Value(std::move(top)) << "\n";
}
