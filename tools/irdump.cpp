// irdump: LLVM bitcode -> simplified SSA -> JSON.
// usage: irdump in.bc out.json [--noalias-args] [--inline-all] [--keep NAME]...
// Every function of the module is made inlinable (unless kept), stack slots
// are promoted, redundant loads are removed; then each remaining definition is
// written with its blocks, instructions, phi nodes and branch structure.
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::map<const Value*, int> ids;
static int vid(const Value* v) {
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  int n = (int)ids.size();
  ids[v] = n;
  return n;
}

static std::string tyname(Type* t) {
  std::string s;
  raw_string_ostream o(s);
  t->print(o, false, true);
  return o.str();
}

static json::Value val(const Value* v, const DataLayout& DL);

static json::Value gepval(const GEPOperator* g, const DataLayout& DL) {
  json::Array idx;
  int64_t c = 0;
  bool ok = true;
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value* ix = it.getOperand();
    if (StructType* st = it.getStructTypeOrNull()) {
      unsigned f = (unsigned)cast<ConstantInt>(ix)->getZExtValue();
      c += DL.getStructLayout(st)->getElementOffset(f);
    }
    else {
      int64_t sz = (int64_t)DL.getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * sz;
      else idx.push_back(json::Object{{"v", val(ix, DL)}, {"s", sz}});
    }
  }
  (void)ok;
  return json::Object{{"k", "gep"}, {"base", val(g->getPointerOperand(), DL)}, {"idx", std::move(idx)}, {"c", c}};
}

static json::Value val(const Value* v, const DataLayout& DL) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() <= 64)
      return json::Object{{"k", "int"}, {"v", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()}, {"w", (int64_t)ci->getBitWidth()}};
  }
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s;
    cf->getValueAPF().toString(s);
    return json::Object{{"k", "fp"}, {"v", s.str().str()}};
  }
  if (isa<ConstantPointerNull>(v)) return json::Object{{"k", "null"}};
  if (isa<UndefValue>(v)) return json::Object{{"k", "undef"}};
  if (auto* gv = dyn_cast<GlobalVariable>(v)) {
    json::Object o{{"k", "glob"}, {"n", gv->getName().str()}};
    if (gv->isConstant() && gv->hasInitializer())
      if (auto* ca = dyn_cast<ConstantDataSequential>(gv->getInitializer()))
        if (ca->isCString()) { std::string s = ca->getAsCString().str(); if (json::isUTF8(s)) o["s"] = s; }
    o["const"] = gv->isConstant();
    return std::move(o);
  }
  if (auto* f = dyn_cast<Function>(v)) return json::Object{{"k", "fun"}, {"n", f->getName().str()}};
  if (auto* a = dyn_cast<Argument>(v)) return json::Object{{"k", "arg"}, {"i", (int64_t)a->getArgNo()}};
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return gepval(g, DL);
    return json::Object{{"k", "cexpr"}};
  }
  if (isa<Instruction>(v)) return json::Object{{"k", "i"}, {"id", (int64_t)vid(v)}};
  return json::Object{{"k", "const"}};
}

int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  std::set<std::string> keep;
  bool noalias = false, inl = false;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--noalias-args") noalias = true;
    else if (a == "--inline-all") inl = true;
    else if (a == "--keep") keep.insert(argv[++i]);
  }
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  const DataLayout& DL = M->getDataLayout();
  // functions reachable from themselves cannot be inlined; AlwaysInliner skips them
  for (Function& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    bool ext = F.hasExternalLinkage() && !F.getName().starts_with("_Z");
    if (inl && !ext && !keep.count(F.getName().str())) {
      F.addFnAttr(Attribute::AlwaysInline);
    }
    if (noalias)
      for (Argument& A : F.args())
        if (A.getType()->isPointerTy() && !A.hasAttribute(Attribute::NoAlias)) A.addAttr(Attribute::NoAlias);
  }

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char* pipe = "always-inline,function(sroa,early-cse<memssa>,gvn<no-pre;load-pre;no-split-backedge-load-pre>,sroa,early-cse<memssa>,adce,loop-simplify)";
  if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);

  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  if (ec) return 2;
  json::Array funcs;
  for (Function& F : *M) {
    if (F.isDeclaration()) continue;
    ids.clear();
    json::Array args;
    for (Argument& A : F.args())
      args.push_back(json::Object{{"n", A.getName().str()}, {"t", tyname(A.getType())}, {"sret", A.hasStructRetAttr()}});
    std::map<const BasicBlock*, int> bid;
    int nb = 0;
    for (BasicBlock& B : F) bid[&B] = nb++;
    json::Array blocks;
    for (BasicBlock& B : F) {
      json::Array ins;
      for (Instruction& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
        json::Object o;
        o["id"] = (int64_t)vid(&I);
        o["op"] = I.getOpcodeName();
        o["t"] = tyname(I.getType());
        if (auto& L = I.getDebugLoc()) {
          o["l"] = (int64_t)L.getLine();
          if (auto* sc = dyn_cast_or_null<DIScope>(L.getScope())) o["f"] = sc->getFilename().str();
        }
        json::Array ops;
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          json::Value gv = gepval(cast<GEPOperator>(g), DL);
          o["gep"] = std::move(gv);
        }
        else if (auto* p = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
            inc.push_back(json::Object{{"b", bid[p->getIncomingBlock(i)]}, {"v", val(p->getIncomingValue(i), DL)}});
          o["inc"] = std::move(inc);
        }
        else if (auto* c = dyn_cast<CmpInst>(&I)) {
          o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          for (auto& u : I.operands()) ops.push_back(val(u.get(), DL));
          o["ot"] = tyname(I.getOperand(0)->getType());
        }
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          Function* cf = cb->getCalledFunction();
          if (cf) o["callee"] = cf->getName().str();
          else o["calleev"] = val(cb->getCalledOperand(), DL);
          for (auto& u : cb->args()) ops.push_back(val(u.get(), DL));
          if (cf && cf->onlyReadsMemory()) o["readonly"] = true;
          if (auto* iv = dyn_cast<InvokeInst>(&I)) {
            o["succ"] = json::Array{bid[iv->getNormalDest()], bid[iv->getUnwindDest()]};
          }
        }
        else if (auto* br = dyn_cast<BranchInst>(&I)) {
          json::Array s;
          if (br->isConditional()) ops.push_back(val(br->getCondition(), DL));
          for (unsigned i = 0; i < br->getNumSuccessors(); i++) s.push_back(bid[br->getSuccessor(i)]);
          o["succ"] = std::move(s);
        }
        else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(val(sw->getCondition(), DL));
          json::Array s, cs;
          s.push_back(bid[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) { s.push_back(bid[c.getCaseSuccessor()]); cs.push_back(c.getCaseValue()->getSExtValue()); }
          o["succ"] = std::move(s);
          o["cases"] = std::move(cs);
        }
        else {
          for (auto& u : I.operands()) ops.push_back(val(u.get(), DL));
          if (I.isTerminator()) {
            json::Array s;
            for (unsigned i = 0; i < I.getNumSuccessors(); i++) s.push_back(bid[I.getSuccessor(i)]);
            o["succ"] = std::move(s);
          }
          if (auto* st = dyn_cast<StoreInst>(&I)) o["vt"] = tyname(st->getValueOperand()->getType());
          if (isa<CastInst>(&I)) o["ot"] = tyname(I.getOperand(0)->getType());
        }
        if (!ops.empty()) o["c"] = std::move(ops);
        ins.push_back(std::move(o));
      }
      blocks.push_back(json::Object{{"n", B.getName().str()}, {"i", std::move(ins)}});
    }
    int line = 0; std::string file;
    if (auto* sp = F.getSubprogram()) { line = (int)sp->getLine(); file = sp->getFilename().str(); }
    funcs.push_back(json::Object{{"n", F.getName().str()}, {"ext", F.hasExternalLinkage()}, {"l", line}, {"file", file},
      {"args", std::move(args)}, {"b", std::move(blocks)}});
  }
  json::Value all(json::Object{{"funcs", std::move(funcs)}});
  out << all;
  return 0;
}
